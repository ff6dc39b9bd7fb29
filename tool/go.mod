module verif.local/tool

go 1.23
