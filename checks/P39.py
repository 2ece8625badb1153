from vlib.lsxq import LQuery as L
O = dict(linabs=True, uf_equal=False, assume_nonzero=True)
S = ['troposphere.c']
LSX = [L('%s%d' % ('south' if s else 'north', i), 'P39_tropo.c', S, defs=['SLICE=0', 'LO=%s' % lo, 'HI=%s' % hi, 'SOUTH=%d' % s], opts=O, timeout=200,
         bounds='latitude %s..%s rad %s: every day of year, height -1000..12000 m and elevation -1.6..1.6 rad' % (lo, hi, 'south' if s else 'north'))
       for s in (0, 1) for i, (lo, hi) in enumerate((('0', '0.27'), ('0.26', '0.53'), ('0.52', '0.79'), ('0.78', '1.05'), ('1.04', '1.32'), ('1.3', '1.6')))]
ASSUMPTIONS = ['doubles are exact reals; sine, cosine, tangent, arc tangent, exponential and power are uninterpreted (same argument, same value), conversion to single precision is exact',
               'inputs at which an intermediate quotient has a zero divisor are outside the claim', 'latitudes that are not numbers are outside the claim']
