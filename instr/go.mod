module verif/instr

go 1.22.0
