module mine
go 1.23.0
