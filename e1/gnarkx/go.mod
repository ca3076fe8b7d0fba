module github.com/consensys/gnark/gnarkx

go 1.21

require github.com/consensys/gnark v0.9.1
