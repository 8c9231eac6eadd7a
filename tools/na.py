NOT_APPLICABLE = []
EXTRA = []
