"""setup_cmd: builds the extractor (every check can also do so itself)."""
from . import extract
print(extract.build_extractor())
