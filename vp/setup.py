import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from driver import irx_path
print("extractor:", irx_path())
