module trcsim

go 1.24
