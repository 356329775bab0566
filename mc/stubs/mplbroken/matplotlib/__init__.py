raise ImportError("numpy.core.multiarray failed to import")
