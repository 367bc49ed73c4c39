module vcg

go 1.24
