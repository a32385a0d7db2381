module front
go 1.21
