module verif/runner

go 1.21
