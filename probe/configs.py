"""The build configurations the probe is compiled in. Each: compiler, flags; "amalg" builds the amalgamated package."""
ALL = ["-DMPACK_EXTENSIONS=1", "-DMPACK_COMPATIBILITY=1"]
NOLIB = ["-DMPACK_STDLIB=0", "-DMPACK_STDIO=0"]
HEAP = ["-include", "stdlib.h", "-DMPACK_MALLOC=malloc", "-DMPACK_FREE=free"]
TINY = ["-DMPACK_BUFFER_SIZE=33", "-DMPACK_STACK_SIZE=33", "-DMPACK_NODE_PAGE_SIZE=113", "-DMPACK_NODE_INITIAL_DEPTH=3", "-DMPACK_TRACKING_INITIAL_CAPACITY=3", "-DMPACK_BUILDER_PAGE_SIZE=165"]
STD = ["-include", "stdint.h", "-include", "stdbool.h", "-include", "stddef.h", "-include", "string.h", "-include", "stdlib.h", "-include", "stdio.h", "-include", "stdarg.h", "-include", "inttypes.h", "-include", "limits.h", "-include", "errno.h"]
FULL = {
    "everything-release": ["clang", "-std=gnu11", "-O1", "-DMPACK_DEBUG=0"] + ALL,
    "everything-debug": ["clang", "-std=gnu11", "-O1", "-DMPACK_DEBUG=1"] + ALL,
    "gcc-O2": ["gcc", "-std=gnu11", "-O2"] + ALL,
    "gcc-O3-debug": ["gcc", "-std=c11", "-O3", "-DMPACK_DEBUG=1"] + ALL,
    "clang-O0": ["clang", "-std=c11", "-O0"] + ALL,
    "clang-O3-pattern": ["clang", "-std=gnu17", "-O3", "-ftrivial-auto-var-init=pattern"] + ALL,
    "default": ["gcc", "-std=gnu11", "-O1"],
    "default-debug": ["clang", "-std=gnu11", "-O1", "-DMPACK_DEBUG=1"],
    "extensions-only": ["clang", "-std=gnu11", "-O1", "-DMPACK_EXTENSIONS=1"],
    "compatibility-only": ["clang", "-std=gnu11", "-O1", "-DMPACK_COMPATIBILITY=1"],
    "size": ["gcc", "-std=gnu11", "-Os", "-DMPACK_OPTIMIZE_FOR_SIZE=1", "-DMPACK_STRINGS=0"] + ALL,
    "size-debug": ["clang", "-std=gnu11", "-Os", "-DMPACK_OPTIMIZE_FOR_SIZE=1", "-DMPACK_DEBUG=1"] + ALL,
    "tiny": ["clang", "-std=gnu11", "-O1"] + TINY + ALL,
    "tiny-debug": ["clang", "-std=gnu11", "-O1", "-DMPACK_DEBUG=1"] + TINY + ALL,
    "notrack-debug": ["clang", "-std=gnu11", "-O1", "-DMPACK_DEBUG=1", "-DMPACK_NO_TRACKING=1"] + ALL,
    "notrack2": ["clang", "-std=gnu11", "-O1", "-DMPACK_DEBUG=1", "-DMPACK_READ_TRACKING=0", "-DMPACK_WRITE_TRACKING=0"] + ALL,
    "track-release": ["clang", "-std=gnu11", "-O1", "-DMPACK_READ_TRACKING=1", "-DMPACK_WRITE_TRACKING=1"] + ALL,
    "no-realloc": ["clang", "-std=gnu11", "-O1", "-DMPACK_MALLOC=malloc", "-DMPACK_FREE=free"] + TINY + ALL,
    "no-stdio": ["clang", "-std=gnu11", "-O1", "-DMPACK_STDIO=0"] + ALL,
    "no-stdlib-heap": ["clang", "-std=gnu11", "-O1"] + NOLIB + HEAP + ALL,
    "no-stdlib-heap-debug": ["gcc", "-std=gnu11", "-O1", "-DMPACK_DEBUG=1"]  + NOLIB + HEAP + ALL,
    "embed": ["gcc", "-std=gnu11", "-O2"] + NOLIB + ALL,
    "embed-nobuiltins": ["clang", "-std=gnu11", "-O1", "-DMPACK_NO_BUILTINS=1"] + NOLIB + ALL,
    "embed-nobuiltins-O3": ["gcc", "-std=gnu11", "-O3", "-DMPACK_NO_BUILTINS=1"] + NOLIB + HEAP + ALL,
    "embed-writer": ["clang", "-std=gnu11", "-O1", "-DMPACK_READER=0", "-DMPACK_EXPECT=0", "-DMPACK_NODE=0"] + NOLIB + ALL,
    "embed-reader": ["clang", "-std=gnu11", "-O1", "-DMPACK_WRITER=0", "-DMPACK_EXPECT=0", "-DMPACK_NODE=0"] + NOLIB + ALL,
    "embed-expect": ["clang", "-std=gnu11", "-O1", "-DMPACK_WRITER=0", "-DMPACK_NODE=0"] + NOLIB + ALL,
    "embed-node": ["clang", "-std=gnu11", "-O1", "-DMPACK_WRITER=0", "-DMPACK_READER=0", "-DMPACK_EXPECT=0"] + NOLIB + ALL,
    "writer-only": ["clang", "-std=gnu11", "-O1", "-DMPACK_READER=0", "-DMPACK_EXPECT=0", "-DMPACK_NODE=0", "-DMPACK_BUILDER=0"] + ALL,
    "builder-internal": ["clang", "-std=gnu11", "-O1", "-DMPACK_BUILDER_INTERNAL_STORAGE=1"] + ALL,
    "builder-internal-tiny": ["clang", "-std=gnu11", "-O1", "-DMPACK_BUILDER_INTERNAL_STORAGE=1", "-DMPACK_BUILDER_INTERNAL_STORAGE_SIZE=121"] + TINY + ALL,
    "no-double": ["clang", "-std=gnu11", "-O1", "-DMPACK_DOUBLE=0"] + ALL,
    "no-float": ["clang", "-std=gnu11", "-O1", "-DMPACK_FLOAT=0", "-DMPACK_DOUBLE=0"] + ALL,
    "no-float-debug": ["clang", "-std=gnu11", "-O1", "-DMPACK_FLOAT=0", "-DMPACK_DOUBLE=0", "-DMPACK_DEBUG=1"] + ALL,
    "no-conforming": ["clang", "-std=gnu11", "-O1", "-DMPACK_CONFORMING=0"] + STD + ALL,
    "no-conforming-lib": ["gcc", "-std=gnu11", "-O1", "-DMPACK_CONFORMING=0", "-DMPACK_STDLIB=1", "-DMPACK_STDIO=1"] + STD + ALL,
    "gnu89": ["gcc", "-std=gnu89", "-O1"] + ALL,
    "c99-debug": ["gcc", "-std=gnu99", "-O1", "-DMPACK_DEBUG=1"] + ALL,
    "cxx98": ["clang++", "-x", "c++", "-std=gnu++98", "-O1"] + ALL,
    "cxx11-gcc": ["g++", "-x", "c++", "-std=gnu++11", "-O1"] + ALL,
    "cxx17-debug": ["clang++", "-x", "c++", "-std=c++17", "-O1", "-DMPACK_DEBUG=1"] + ALL,
    "cxx-no-double": ["clang++", "-x", "c++", "-std=gnu++11", "-O1", "-DMPACK_DOUBLE=0"] + ALL,
    "cxx-no-float": ["g++", "-x", "c++", "-std=gnu++11", "-O1", "-DMPACK_FLOAT=0", "-DMPACK_DOUBLE=0", "-DMPACK_DEBUG=1"] + ALL,
    "m32": ["clang", "-m32", "-std=gnu11", "-O1"] + ALL,
    "m32-debug-tiny": ["clang", "-m32", "-std=gnu11", "-O1", "-DMPACK_DEBUG=1"] + TINY + ALL,
    "m32-size": ["clang", "-m32", "-std=gnu11", "-Os", "-DMPACK_OPTIMIZE_FOR_SIZE=1"] + ALL,
    "m32-embed": ["clang", "-m32", "-std=gnu11", "-O2", "-DMPACK_NO_BUILTINS=1"] + NOLIB + ALL,
    "uchar": ["gcc", "-std=gnu11", "-O2", "-funsigned-char"] + ALL,
    "ubsan": ["clang", "-std=gnu11", "-O1", "-fsanitize=undefined", "-fno-sanitize=nonnull-attribute,pointer-overflow", "-fno-sanitize-recover=all"] + ALL,
    "amalgamated": ["amalg", "clang", "-std=gnu11", "-O1"] + ALL,
    "amalgamated-debug": ["amalg", "gcc", "-std=gnu11", "-O2", "-DMPACK_DEBUG=1"] + ALL,
    "amalgamated-cxx": ["amalg", "clang++", "-x", "c++", "-std=c++11", "-O1"] + ALL,
}
MSAN = {
    "everything-release": FULL["everything-release"],
    "msan": ["clang", "-std=gnu11", "-O1", "-fsanitize=memory", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"] + ALL,
    "msan-debug-tiny": ["clang", "-std=gnu11", "-O1", "-fsanitize=memory", "-fno-sanitize-recover=all", "-DMPACK_DEBUG=1"] + TINY + ALL,
    "msan-size": ["clang", "-std=gnu11", "-O1", "-fsanitize=memory", "-fno-sanitize-recover=all", "-DMPACK_OPTIMIZE_FOR_SIZE=1", "-DMPACK_BUILDER_INTERNAL_STORAGE=1", "-DMPACK_NO_BUILTINS=1"] + NOLIB + HEAP + ALL,
}
SETS = {"full": FULL, "msan": MSAN}
