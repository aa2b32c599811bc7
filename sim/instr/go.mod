module verif.local/instr

go 1.23
