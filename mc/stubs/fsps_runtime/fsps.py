raise RuntimeError("You need to have the SPS_HOME environment variable")
