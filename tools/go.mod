module veriftools

go 1.20
