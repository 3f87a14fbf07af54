"""Mode of the current case, set by the worker."""
WARM = False      # whether objects are used for something else before the case uses them
