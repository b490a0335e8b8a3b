module xpdfsim

go 1.19
