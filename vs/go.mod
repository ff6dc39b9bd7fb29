module verif.local/vs

go 1.21
