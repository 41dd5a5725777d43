// Request numbers, shared with sim/src/proc.rs (keep in step).
enum {
  OP_OPEN = 1, OP_CLOSE, OP_READ, OP_WRITE, OP_LSEEK, OP_FTRUNCATE, OP_TRUNCATE, OP_FSYNC, OP_SYNC, OP_FLOCK,
  OP_DUP, OP_FDOK, OP_GETFL, OP_STAT, OP_FSTAT, OP_ACCESS, OP_MKDIR, OP_RMDIR, OP_UNLINK, OP_RENAME,
  OP_LINK, OP_SYMLINK, OP_CHMOD, OP_FCHMOD, OP_UTIMENS, OP_FUTIMENS, OP_READLINK, OP_REALPATH, OP_GETCWD, OP_CHDIR,
  OP_GETDENTS, OP_CLOCK, OP_SLEEP, OP_PIPE, OP_SPAWN, OP_WAIT, OP_POLL, OP_NOTE
};
