import json,subprocess
M={
'f5cc564':'C03 tensor_functions.Log failed or was wrong beyond depth two',
'2a67215':'C24 matrices of a LieBasis in types it cannot compute in were uninitialised memory',
'3d500a1':'C24 check_lie_basis_data accepted wrong letters, keys out of range and wrong degrees, reading out of bounds, and refused width 1',
'9f12981':'C24 strided arrays and operands of different depths were misread',
'9e8e99d':'C24 short arrays were read and written out of bounds, read-only targets written, swapped bytes taken as they are',
'33f878e':'C24 check_lie_basis_data read beyond its keyword list',
'42fd64f':'C24 the hash of a truncated TensorBasis was not that of an equal basis',
'b53c2c8':'C24 arrays with negative strides were misread',
'085229d':'C22 derivatives of signatures ignored the default resolution of signatures, and leaked or refused pairs',
'6916979':'C27 cells that only touch the support of a stream were taken to lie in it',
'a9c6017':'C27 sound streams queried in another coefficient type than that of the file misread their samples',
'0bce270':'C27 sound streams failed for cells without frames, beyond the file and in exact types',
'3cc1f52':'C27 sound streams ignored resolution=0 and a common channel type, and misread time and categories',
'fd04f3e':'C09 -s of a Scalar returned zero','a13fdf7':'C09 division of Scalars dispatched on the wrong type','29688c5':'C01 element / Scalar multiplied',
'e090dd5':'C08 a coefficient read from an element changed or dangled when the element changed','0103142':'C01 reading a coefficient of a dense element beyond its stored degrees read out of bounds',
'8d8fc44':'C07 Lie[LieKey] used the wrong element','ffa66a3':'C09 Scalar op element and Scalar / Scalar raised or crashed','1bd223d':'C04 adjoint of multiplication wrong for sparse tensors',
'a2d29c8':'C06 converting a sparse element to a smaller depth read out of bounds','6c80a8c':'C06 Context.compute_signature crashed','5ceac1b':'C23 Context methods terminated the process on a wrong argument',
'bb0583a':'C23 comparing a Context with another object crashed','01966d4':'C16 sparse rows of increments lost their keys','cd636b9':'C16 all but one of the increments at the same parameter were dropped',
'31e27de':'C16 increments fell in the same default granule','8a77617':'C13 comparisons of dyadics were wrong across resolutions','b2de872':'C13 multipliers overflowed 32 bits',
'89c1ab9':'C14 merging disjoint partitions lost intermediates','061676d':'C14 iterating a Partition never ended','fb09937':'C07 TensorKey split, index, product, hash inconsistent',
'4adff63':'C07 key_to_index, parents and index_to_key ignored their argument','77066dc':'C07 LieKey accepted letters beyond the width','aab5c2d':'C08 items of an iterator changed with the iterator and outlived the element',
'6af3355':'C01 x -= x on a sparse element read freed memory; zero entries kept','564cb4e':'C01 clearing a dense element kept its degree; antipode of an empty dense tensor crashed',
'138c18c':'C04 adjoint_to_free_multiply labelled its result with the wrong type, later operations were undefined behaviour',
'f398f52':'C17 a query at another depth returned or poisoned the cached log signature','6ae12e6':'C17 dtype= of a query was refused or crashed, ctx= of another width crashed','a7ee04f':'C23 Stream methods terminated the process on a wrong argument',
'e37a184':'C23 signature(depth=-1) crashed',
'ab1aa02':'C16 time increments of unordered or repeated indices were wrong or dropped',
'4185116':'C16 the default support lost the first increment; resolution= without indices was ignored',
'89fcc6b':'C15 increments between grid points were lost by finer queries',
'd583c70':'C19 integer timestamps were refused','fa3caf5':'C19 (label, type) items of a schema were refused','8e137e3':'C19 a tick before and one at time zero: construction never ended',
'78763eb':'C21 coarser queries of function and Brownian streams were not refined, inconsistent with later ones, or hung; wrong variances',
'f07ff10':'C19 sparse tick streams crashed, categorical ticks raised, ticks after time 1 were lost by default, deeper queries were truncated',
'd66b20b':'C20 queries inside a piece, pieces out of order and the support of piecewise abelian streams were wrong',
'a07741c':'C20 resolutions, domain and repeated parameters of tensor valued streams were ignored',
'1705875':'C20 TensorValuedStream crashed without keyword arguments or context, in subclasses and in repr',
'd5e249e':'C20 queries over empty intervals gave the signature over the unit interval; deeper queries lost increments between grid points',
'749bb59':'C12 sparse, empty, rational and polynomial elements, and polynomials, were not pickled','27789ac':'C12 pickled streams shared one cache file and answered for each other; Brownian streams, sparse Lie elements and polynomials did not unpickle',
'09acef7':'C17 signature_derivative crashed when the storage of the stream and the perturbation differ',
'd0a64cd':'C14 rp.segment always raised, and in C++ returned segments that reach outside the interval',
'cd193a6':'C13 to_dyadic_intervals for intervals closed on the right never ended',
'1414b0a':'C14 partitions with the same ends but other points compared equal',
'caee6ba':'C18 a path simplified to a partition beyond the support of the data lost part of the data',
'e5ec3a9':'C09 the negative of a zero scalar had no type and crashed',
'190ca94':'C09 arithmetic with a zero scalar did not promote the type',
'6b8150c':'C09 a polynomial scalar could not be divided by a number',
'5661c60':'C09 inf and nan converted to rational ended the process',
'6d42f01':'C09 negative zero was not equal to zero',
'eff0c45':'C09 division of a number by a negative zero scalar not refused',
'aded841':'C10 the type code of a packed polynomial scalar lost a bit',
'8b0ec5f':'C10 reading a coefficient of a polynomial ended the process',
'ec79a48':'C10 in-place operations on monomials and polynomials freed their result',
'1ce3a02':'C10 in-place division of a monomial multiplied',
'0f028af':'C10 powers of monomials were wrong',
'e0674ab':'C10 no coefficient of a polynomial could be set',
'90a4886':'C10 monomials kept letters with power 0 and accepted negative and overflowing powers',
'3124868':'C10 polynomials from large integers were refused, from inf and nan crashed',
'372aae7':'C10 letters that cannot be represented became other letters',
'd8c4dab':'C10 keys of a monomial that are not strings crashed',
'f5c1822':'C10 the product of monomials lost letters and corrupted memory',
'1bd962c':'C11 strided arrays passed by DLPack were taken for contiguous ones',
'30b67e7':'C11 dtype given by name or numpy type always meant DPReal',
'a713098':'C11 strides of the indices were ignored; indices could not be a column',
'885c730':'C11 converting an array into a larger one read out of bounds',
'd14bd58':'C11 rows of strided arrays overwrote each other; 0-dimensional arrays lost their value',
'8396d6e':'C11 buffers of 4-byte items crashed, Fortran ordered buffers were transposed',
'5f592ba':'C26 simplify and signature_derivative held the interpreter while waiting for another thread: deadlock',
'c38eff9':'C02 products of a context with empty tensors read a null pointer',
'f45b170':'C23 strings and classes that are no scalar types as dtype of a query ended the process',
'0e8420d':'C23 resolutions out of range gave zero or never ended',
'd3b5cc0':'C23 __dlpack__ that returns no capsule, and None as schema of a construction helper, ended the process',
'eaeaae0':'C23 leaving a with block of a Context dropped a reference too many',
'9ddcc45':'C23 indices that are nan or infinite were accepted and sorted the increments at random',
'9a4f5f6':'C23 objects without a length as schema, and large numerators, raised SystemError',
'1319e12':'C01 reading a tensor beyond the basis gave the coefficient of the empty word',
'6d3ed48':'C23 comparing rationals with nan or inf, or dividing by these, ended the process',
'b53ce59':'C23 arrays of numbers without a scalar type ended the process',
'3d52ff5':'C23 deleting items of polynomials and monomials of failing sequences ended the process',
'6401227':'C23 Context() and the base class of scalar types made objects that end the process',
'442a63e':'C23 products of a context with elements of other contexts read their data as its own',
}
p=__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'known-findings.json')
d=json.load(open(p))
d['fixed']=[]
for l in subprocess.run(['git','-C',__import__('os').environ.get('VERIF_REPO','/repo'),'log','--reverse','--format=%h %s'],capture_output=True,text=True).stdout.splitlines():
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    if h not in M: print('MISSING',h,s); continue
    pr,t=M[h].split(' ',1)
    d['fixed'].append(f'fixed: property={pr} {h} {t}')
json.dump(d,open(p,'w'),indent=1); open(p,'a').write('\n')
