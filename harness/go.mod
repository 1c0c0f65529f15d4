module trcharness

go 1.24
