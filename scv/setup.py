"""Builds the extractor and warms nothing else: checks build from /repo."""
import build
print(build.extractor())
