module vshim

go 1.23
