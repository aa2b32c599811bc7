module verif.local/simhook

go 1.21
