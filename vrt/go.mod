module verif.local/vrt

go 1.21
