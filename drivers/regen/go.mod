module verif/regen

go 1.20
