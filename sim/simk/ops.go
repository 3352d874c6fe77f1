package simk

// Operation classes (bit numbers of Fault.Ops).
const (
	OpOpen = iota
	OpCreate
	OpRead
	OpWrite
	OpClose
	OpStat
	OpFstat
	OpReaddir
	OpReadlink
	OpMkdir
	OpUnlink
	OpRmdir
	OpRename
	OpChmod
	OpChdir
	OpGetcwd
	OpTrunc
	OpSync
	OpLink
	OpAccess
	OpPipe
	OpFork
	OpWait
	OpStdin
	OpStdout
	OpStderr
	OpPipeRead
	OpDial
	OpNetRead
	OpNetWrite
	OpNetClose
	OpUtime
	OpDup
	OpMark
	OpChildWrite
	NumOps
)

var OpNames = [...]string{"open", "create", "read", "write", "close", "stat", "fstat", "readdir", "readlink", "mkdir", "unlink", "rmdir", "rename", "chmod", "chdir", "getcwd", "truncate", "sync", "link", "access", "pipe", "fork", "wait", "stdin", "stdout", "stderr", "pipe-read", "dial", "net-read", "net-write", "net-close", "utime", "dup", "mark", "child-write"}
