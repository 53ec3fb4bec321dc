module zzsim

go 1.22
