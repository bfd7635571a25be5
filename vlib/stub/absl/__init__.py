import logging as _l
class _L:
    def __getattr__(self,n): return (lambda *a,**k: None)
import sys; sys.modules['absl.logging']=_L()
logging=sys.modules['absl.logging']
