"""driver text: extern "C" wrappers around the public API of the library"""
HDR = '''
#include "HEAAN/arith/Z_Q.h"
#include "HEAAN/arith/R_Q.h"
#include "HEAAN/arith/R_Q_square.h"
'''
def inc(*hs):
    return ''.join('#include "%s"\n' % h for h in hs)
class W:
    """collects wrappers"""
    def __init__(self, *headers):
        self.out = [inc(*headers)]
        self.n = set()
    def fn(self, name, params, body, ret='void'):
        """wrapper w_<name>"""
        if name not in self.n:
            self.n.add(name)
            self.out.append('extern "C" %s w_%s(%s){ %s }\n' % (ret, name, params, body))
        return 'w_' + name
    def text(self, t):
        self.out.append(t)
    def src(self):
        return ''.join(self.out)
