"""writes /verif/properties.jsonl (kept as code so that the wording lives in one place)"""
import json, os
P = []
def p(id, title, st, over, q, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=m, where=w) for m, w in mech],
                               observe_at=observe or [])))
OPS='tensorD/base/ops.py'; TYPE='tensorD/base/type.py'; CP='tensorD/factorization/cp.py'; NCP='tensorD/factorization/ncp.py'
TUC='tensorD/factorization/tucker.py'; NT='tensorD/factorization/ntucker.py'; LOSS='tensorD/loss.py'; RD='tensorD/dataproc/reader.py'
PO='tensorD/base/pitf_ops.py'; PN='tensorD/base/pitf_ops_numpy.py'; PF='tensorD/factorization/pitf.py'; PFN='tensorD/factorization/pitf_numpy.py'
GEN='tensorD/demo/DataGenerator.py'; ENV='tensorD/factorization/env.py'
FEW='The unit tests evaluate one or two small constant tensors of order 2 or 3; '
p('C01','Mode-n unfolding follows the Kolda layout',
  'For every dense tensor and every mode n, unfolding gives the I_n x (product of the other sizes) matrix whose entry (i_n, j) is the tensor element, where j enumerates the remaining indices with the lowest-numbered mode varying fastest.',
  ['inputs'],'all tensors of order 2..8, all sizes, all element values, all modes',FEW+'a wrong permutation can coincide on square or symmetric data, or only show for higher orders.',[OPS],[('unfold/_gen_perm','ops.py')])
p('C02','Fold and unfold are mutually inverse',
  'Folding the mode-n unfolding of a tensor with its own shape returns that tensor exactly, and unfolding a folded matrix returns that matrix, for every mode.',
  ['inputs'],'all shapes of order 2..8, all modes, all values',FEW+'inverse permutations of length <= 3 often equal themselves.',[OPS],[('fold/unfold','ops.py')])
p('C03','Matricization, vectorization and their arguments',
  'Flattening a tensor by row and column axes places each element at the row-major position of its row indices and of its column indices in the order given, with -1 meaning the remaining axes in increasing order; vectorization is row-major and is undone by reshaping back. Lists and tuples of axes mean the same as each other, and the caller\'s axis arguments are left unmodified.',
  ['inputs','histories'],'all tensors of order 2..5, every split of the axes into ordered rows and columns in every accepted argument form, all values',FEW+'argument mutation and tuple arguments are never exercised.',[OPS],[('t2mat/vectorize/vec_to_tensor','ops.py')])
p('C04','Tensor contraction sums over the paired axes',
  'Contracting two tensors along paired axes equals, for every remaining index, the sum of products over all values of the paired indices, with the remaining axes of the first tensor before those of the second in their original order.',
  ['inputs'],'all tensor pairs of order up to 4, every pairing of axes (integer or list), all sizes and values',FEW+'only a few axis choices are tried.',[OPS],[('mul','ops.py')])
p('C05','Tensor-times-matrix multiplies exactly the selected modes',
  'Multiplying a tensor by matrices along given modes (all modes, an explicit axis list in any order, or all but the skipped ones; optionally transposed) equals the composition of the single mode products, and giving both an axis list and skipped indices is rejected.',
  ['inputs','configurations'],'all orders up to the alphabet limit, all axis lists / skip sets at small order, both transpose settings, all sizes and values',FEW+'skip lists, permuted axes and high orders are not covered.',[OPS],[('ttm','ops.py')])
p('C06','Hadamard product and skipping',
  'The Hadamard product of a list of equally shaped matrices is their element-wise product over exactly the non-skipped positions of the list (by list index, skip given as an integer or a list), and the input list is not changed.',
  ['inputs'],'all list lengths, skip sets, sizes and values',FEW+'skip handling is tried for one index.',[OPS],[('hadamard/_skip','ops.py')])
p('C07','Khatri-Rao and Kronecker products',
  'The Khatri-Rao product gives the column-wise Kronecker product and the Kronecker product gives the block product of the given matrices in list order (reversed order when asked), over exactly the non-skipped ones, for any number of matrices.',
  ['inputs','configurations'],'every number of matrices the alphabet admits, skip sets, reverse flag, all sizes and values',FEW+'with two matrices and one skip setting an ordering error is invisible.',[OPS],[('khatri/kron','ops.py')])
p('C08','Scalar and singular-value products',
  'The inner product of two equally shaped tensors is the sum of element products and different shapes are rejected; the max-singular-value product equals the product over the matrices of their largest singular values; the cross product-contraction of two tensors with a matrix list equals its defining sum.',
  ['inputs'],'all shapes, values and list lengths',FEW+'data-dependent singular values and shape checks are sampled at one point.',[OPS],[('inner/max_single_value_mul/xcb','ops.py')])
p('C09','A Kruskal tensor extracts to its weighted sum of outer products',
  'Extracting a Kruskal tensor gives sum_r lambda_r a_r o b_r o c_r ..., with unit weights when none are given, for weights given as vector or column and factors given as arrays or tensors of any floating type, weights and factors agreeing on the precision.',
  ['inputs'],'all orders 2..6, ranks, sizes, values, argument kinds',FEW+'mixed argument kinds and higher orders are not covered.',[TYPE,OPS],[('KTensor','type.py')])
p('C10','A Tucker tensor extracts to core times factors',
  'Extracting a Tucker tensor gives the core multiplied by factor n along mode n for every mode, for array or tensor arguments.',
  ['inputs'],'all orders 2..6, ranks, sizes, values',FEW+'one order and one rank are sampled.',[TYPE,OPS],[('TTensor','type.py')])
p('C11','A dense-tensor object mirrors the dense operations',
  'Every operation of a dense-tensor object gives what the corresponding operation gives on the tensor it holds, whatever other operations were called on the object before, and operands wrapped or unwrapped give the same result.',
  ['histories','inputs'],'all sequences of calls on one object; all values, shapes and modes',FEW+'each test calls an operation once on a fresh object, so results remembered from an earlier call are never seen.',[TYPE],[('DTensor','type.py')])
p('C12','Loss functions match their formulas',
  'The L2 loss is half the sum of squared differences; RMSE is the root of the mean squared difference over all elements; RMSE ignoring zeros averages squared differences over exactly the positions where the reference is non-zero, wherever the hypothesis is; shape mismatches are rejected by both RMSEs.',
  ['inputs'],'all shapes and values (reference not entirely zero)',FEW+'formulas agree on special data such as fully non-zero references.',[LOSS],[('l2/rmse/rmse_ignore_zero','loss.py')])
p('C13','The reader loads every entry at its coordinates',
  'Reading a coordinate file gives a tensor holding each row\'s value at the row\'s coordinates and zero elsewhere, with the size of each mode the given shape or else one plus the largest index; empty lines are ignored and unsupported file types are rejected.',
  ['inputs'],'all files: any number of rows, order 1..5, any indices and values',FEW+'one tiny file is read.',[RD],[('TensorReader.read','reader.py')])
p('C14','A CP-ALS sweep is the Gauss-Seidel alternating least-squares update',
  'In every training step each factor is replaced, in mode order and using the already updated earlier factors, by the least-squares solution (unfolding times Khatri-Rao times pseudo-inverse of the Hadamard of Gram matrices) with each column divided by its maximum, and the reported weights are the last mode\'s maxima.',
  ['inputs','histories','schedules'],'all data, ranks, orders 3..4, every step and every execution order the graph allows',FEW+'the tests only check that training runs; reading a stale factor still converges.',[CP],[('CP_ALS.build_model/train','cp.py')])
p('C15','Non-negative models stay non-negative',
  'After every training step of the non-negative CP and Tucker models all entries of all factors, of the core and of the reconstruction are non-negative.',
  ['inputs','histories'],'all data (also with negative entries), ranks, numbers of steps',FEW+'non-negativity of the results is not asserted at all.',[NCP,NT],[('relu projections','ncp.py, ntucker.py')])
p('C16','A non-negative CP step is the block-coordinate update with extrapolation',
  'Each step updates every factor in mode order by the projected gradient step of length 1/L from the extrapolated point using the newest other factors; afterwards, if the objective decreased, the momentum weights, extrapolated points and previous factors advance, and otherwise extrapolation restarts from the previous factors.',
  ['inputs','histories','schedules'],'all data, ranks, orders 3..4, steps and graph execution orders',FEW+'the extrapolation state is never inspected.',[NCP],[('NCP_BCU.build_model/train','ncp.py')])
p('C17','HOSVD returns the truncated higher-order SVD',
  'The factors are the leading left singular vectors of the unfoldings (as many as the requested rank per mode), the core is the data projected on them and the full tensor is the core expanded by the factors.',
  ['inputs'],'all data, orders 3..4, ranks',FEW+'only that the model runs is checked.',[TUC],[('HOSVD','tucker.py')])
p('C18','A HOOI sweep is the Gauss-Seidel orthogonal iteration',
  'Starting from the HOSVD factors, each step replaces every factor in mode order by the leading left singular vectors of the data projected on the newest other factors, and the core is the data projected on the new factors.',
  ['inputs','histories','schedules'],'all data, orders 3..4, ranks, steps, graph execution orders',FEW+'a stale factor or a wrong mode still lowers the error.',[TUC],[('HOOI.build_model/train','tucker.py')])
p('C19','A non-negative Tucker step is the block-coordinate update with extrapolation',
  'Each step first updates the core and then every factor in mode order by projected gradient steps of length 1/L from the extrapolated points using the newest other blocks; the extrapolation state advances when the objective decreased and restarts otherwise.',
  ['inputs','histories','schedules'],'all data, ranks, order 3, steps and graph execution orders',FEW+'the extrapolation state is never inspected.',[NT],[('NTUCKER_BCU.build_model/train','ntucker.py')])
p('C20','Iterative training stops exactly by its stopping rule',
  'Training runs at most the requested number of steps and stops early exactly when the relative residual is below the tolerance or the relative objective change to the previous (best, for the non-negative models) objective stayed below the tolerance three times in a row; the returned history has one entry per executed step.',
  ['inputs','histories','configurations'],'all data, tolerances, step limits, verbosity and validation intervals',FEW+'they run a fixed small number of steps and never look at when training stops.',[CP,NCP,TUC,NT],[('train loops','cp.py, ncp.py, tucker.py, ntucker.py')])
p('C21','Published results are one consistent state',
  'After training the full tensor is the reconstruction of the published factors (with weights or core) of the last executed step wherever training stopped, prediction returns its element at the key, the finished flag is set only then, and prediction before training raises the library\'s error.',
  ['histories','configurations','inputs'],'all stopping points, validation settings, repeated training, all keys',FEW+'full tensor and factors are not compared after an early stop, and prediction is not called.',[CP,NCP,TUC,NT],[('train/predict/properties','cp.py, ncp.py, tucker.py, ntucker.py')])
p('C22','Training metrics describe the reconstruction of their own step',
  'Each history entry holds the RMSE over the non-zero data entries and the relative Frobenius residual of the reconstruction obtained in that same step.',
  ['inputs','histories','schedules'],'all data, models, steps, graph execution orders',FEW+'history values are not compared with anything.',[CP,NCP,TUC,NT,LOSS],[('loss/rel_res ops','cp.py, ncp.py, tucker.py, ntucker.py')])
p('C23','Pairwise-interaction constraint projections',
  'Centralization subtracts from every column its mean; the generated matrices are products of two random factors of the requested rank projected on their constraint set (centred columns, and for the first matrix the overall mean added back), in both back ends.',
  ['inputs'],'all matrices, shapes and ranks',FEW+'only finite samples of random matrices are seen.',[PO,PN],[('centralization/subspace/sample_rule4mat','pitf_ops*.py')])
p('C24','Pairwise-interaction sampling operators',
  'Sample indices lie inside their mode; sampling a matrix or tensor returns the entries at the sample indices in order with the pair scaled by the root of the third size; the reverse operator places sample i at its position (the last one at repeated positions) and zero elsewhere, in both back ends.',
  ['inputs'],'all sample lists (repeats included), sizes, values, numbers of samples',FEW+'random small samples rarely repeat or reach the edges.',[PO,PN],[('sample3D_rule/Pomega_*/adjoint_operator','pitf_ops*.py')])
p('C25','Singular-value shrinkage',
  'Shrinkage returns U max(S - tao, 0) V^T of the centred matrix, plus, in the complicated mode, the soft-thresholded overall mean term, for matrices of any aspect ratio and in both back ends.',
  ['inputs'],'all matrices, all aspect ratios, thresholds',FEW+'symmetric or square samples hide a missing transposition.',[PO,PN],[('SVT/shrink','pitf_ops*.py')])
p('C26','Second-order cone projection',
  'Projecting (x, t) on the second-order cone returns the pair itself inside the cone, zero inside the polar cone and the scaled boundary point otherwise, in both back ends.',
  ['inputs'],'all vectors and scalars, including the case boundaries',FEW+'the function is not called by any stable test.',[PO,PN],[('cone_projection_operator','pitf_ops*.py')])
p('C27','Pairwise-interaction recovery iterates on one fixed sample set',
  'Every recovery step computes the three shrunk matrices from the current sample vector, compares with the samples of the data at one index set drawn once, adds the scaled residual to the sample vector, and records that step\'s error rate and loss.',
  ['inputs','histories'],'all data, parameters, numbers of steps, drawn samples',FEW+'a redrawn sample set or a stale matrix still yields numbers.',[PF,PFN],[('PITF / PITF_np','pitf.py, pitf_numpy.py')])
p('C28','Synthetic data generators',
  'Generated data is the extracted tensor of non-negative uniform factors (and core) of the requested shape and rank plus non-negative noise of the requested scale.',
  ['inputs'],'all shapes, ranks, noise levels and random draws',FEW+'not tested.',[GEN],[('synthetic_data_cp/synthetic_data_tucker','DataGenerator.py')])
p('C29','Models in one graph are independent',
  'Building and training one model is unaffected by other models built before it in the same graph: it trains, with its own data only, to what it would give alone.',
  ['histories','configurations'],'all pairs of models built in the same default graph before training',FEW+'each test builds one model.',[CP,NCP,TUC,NT,PF,ENV],[('summary merging, feeds','train methods')])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['title'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
