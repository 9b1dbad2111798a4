import os
# A file being written here could otherwise stay locked in a child between fork and exec, and the program
# under test would find it locked. The programs under test run with the default (vf.build.ENV).
os.environ["HDF5_USE_FILE_LOCKING"] = "FALSE"
