raise ImportError("libgfortran.so.5: cannot open shared object file")
