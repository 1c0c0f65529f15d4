module trcinstr

go 1.24
