module zz.local/zz

go 1.25
