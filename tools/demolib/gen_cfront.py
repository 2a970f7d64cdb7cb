import os
REPO = os.getcwd()
CACHE = STUBS = '/nonexistent'
