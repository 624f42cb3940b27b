"""kv - a contract verifier for the Python subset used by kiutils."""
