module verifsim

go 1.25
