module zzdriver

go 1.22
