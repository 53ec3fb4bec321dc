module zzprep

go 1.22
