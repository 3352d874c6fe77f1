# toolchain used by the simulator (its overlay patches this exact release)
export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOROOT=
unset GOROOT
