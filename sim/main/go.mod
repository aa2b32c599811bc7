module verif.local/main

go 1.23
