import mxstub

mxstub.install()
