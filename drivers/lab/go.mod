module lab

go 1.26.0
