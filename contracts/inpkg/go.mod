module inpkg

go 1.21
