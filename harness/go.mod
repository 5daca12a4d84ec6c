module verifharness

go 1.17

require (
	github.com/davidkleiven/goselect v0.0.0
	gonum.org/v1/gonum v0.6.0
	gonum.org/v1/plot v0.0.0-20191107103940-ca91d9d40d0a
)

require (
	github.com/ajstarks/svgo v0.0.0-20180226025133-644b8db467af // indirect
	github.com/fogleman/gg v1.2.1-0.20190220221249-0403632d5b90 // indirect
	github.com/golang/freetype v0.0.0-20170609003504-e2365dfdc4a0 // indirect
	github.com/jung-kurt/gofpdf v1.0.3-0.20190309125859-24315acbbda5 // indirect
	golang.org/x/image v0.0.0-20190802002840-cff245a6509b // indirect
)

replace github.com/davidkleiven/goselect => /repo
