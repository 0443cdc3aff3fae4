module verifharness

go 1.22.2
