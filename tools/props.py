"""Regenerates properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REP, PS, OPS, OPB, GR = ['emlp/reps/' + f for f in ('representation.py', 'product_sum_reps.py', 'linear_operators.py', 'linear_operator_base.py')] + ['emlp/groups.py']
OB, PT, FL, HK, DS, HD = 'emlp/nn/objax.py', 'emlp/nn/pytorch.py', 'emlp/nn/flax.py', 'emlp/nn/haiku.py', 'emlp/datasets.py', 'experiments/trainer/hamiltonian_dynamics.py'
TR, CL, MT = ['experiments/trainer/' + f for f in ('trainer.py', 'classifier.py', 'model_trainer.py')]
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), technique=technique, note=note))


SYM = 'symbolic execution of the real functions through their jaxpr (jax compiler IR), entries decided by z3 (%s)'
LIN = SYM % 'linear real arithmetic over abstracted monomials'
PATH = 'symbolic execution of the real python code with path forking, every branch and assertion decided by z3 (%s)'

prop('C01', 'Composite representations act as the matrix their expression denotes',
     'For every representation expression built from sums, tensor products, powers, multiples, duals and user defined pieces, over one or several groups, the group representation of a matrix g is the block-diagonal / Kronecker / inverse-transpose matrix the expression denotes, in the order written. This holds for lazy application to a vector, to a batch of columns and densely, for concrete and deferred expressions, and whichever order the library sorts groups in.',
     ['inputs', 'programs', 'configurations'], 'all matrices g, all vectors and batches, all expressions of a generated family (fixed patterns plus random ones), all group orderings',
     'The tests compare one sampled group element on a handful of expressions; most bookkeeping permutations are identities there and group elements of orthogonal groups hide inverse/transpose mistakes.',
     [REP, PS, OPS, OPB], [('composition of representations', PS), ('lazy operators', OPS), ('dual, base and scalar representations', REP)], LIN,
     'expressions of dimension <= 30 (60 thorough), matrices of size 2-4; inv(M) by contract; exact real arithmetic')
prop('C02', 'The Lie algebra representation is the differential of the group representation',
     'For every representation expression and every Lie algebra element A, the algebra representation of A is the derivative at the identity of the group representation along A, i.e. the product-rule matrix of the expression with duals acting by minus the transpose. A user representation which only defines its group action inherits the derivative automatically.',
     ['inputs', 'programs', 'configurations'], 'all matrices A, all vectors and batches, all expressions of the generated family, all group orderings',
     'Tests only see dρ through the solved basis of a few representations, never for general A, and no test covers duals of mixed sums or the inherited derivative.',
     [REP, PS, OPS, OPB], [('drho of sums, products, duals', PS), ('LazyKronsum and LazyJVP', OPS), ('default derivative', REP)], LIN,
     'expressions of dimension <= 30 (60 thorough), matrices of size 2-4; exact real arithmetic; jax forward differentiation is traced, not assumed')
prop('C03', 'Representations are homomorphisms',
     'For every representation expression, ρ(gh) = ρ(g)ρ(h) and ρ(1) = 1 for all invertible matrices g and h, the Lie algebra representation is linear and preserves brackets, and the dual pairing is invariant under the group.',
     ['inputs', 'programs'], 'all pairs of matrices, all expressions of the generated family',
     'The tests never compose two group elements: a representation that is a consistent but wrong function of g passes them.',
     [REP, PS, OPS, OPB], [('group and algebra actions', PS), ('dual action', REP)], LIN,
     'expressions of dimension <= 24, matrices of size 2-3; inv(gh) = inv(h)inv(g) by contract')
prop('C04', 'Every vector of the equivariant subspace really is invariant',
     'For every representation, any linear combination of the equivariant basis, and the projection of any vector, is fixed by all discrete generators and annihilated by all infinitesimal generators of the group, including sums, direct products of several groups, duals, mixed sums with permuted order, complex groups and representations served from the cache.',
     ['inputs', 'programs', 'configurations', 'histories'], 'all coefficient vectors in the unit box, all representations of the family, all cache histories arising from the run, both group orders',
     'Tests sample a few coefficient vectors and group elements for a few representations, and an error in one block or under one permutation is invisible there.',
     [REP, PS, OPS, GR], [('constraint solving and caching', REP), ('basis and projector of sums and direct products', PS)], LIN,
     'dimension <= 64; tolerance 2e-3 on the unit box (the basis is computed in float32); generators written down independently of the library')
prop('C05', 'The equivariant basis spans all invariant vectors and is orthonormal',
     'For every representation there is no invariant vector outside the span of the returned basis; the basis columns are orthonormal and the projector is the orthogonal projector onto the span, both for the direct solver and for the iterative solver used by large representations.',
     ['inputs', 'programs', 'configurations'], 'all vectors of the representation space, all representations of the family',
     'No test checks completeness: returning a strict subspace of the solutions passes every equivariance test.',
     [REP, PS, OPS, GR], [('orthogonal complement of the constraints', REP), ('assembly over sums and direct products', PS)],
     SYM % 'existence of an invariant vector outside the span is a linear real arithmetic query', 'dimension <= 64 (100 thorough); residual tolerance 1e-4 relative to a unit vector; the iterative solver may report that it did not converge')
prop('C06', 'The basis, the projector and their lazy and dense forms agree',
     'Applying the equivariant basis or projector to a vector, to a batch of columns, or as a dense matrix gives the same result; the projector equals basis times its conjugate transpose, is idempotent and self-adjoint.',
     ['inputs', 'programs'], 'all vectors and batches, all representations of the family, both group orders',
     'Tests use the dense basis or the projector on one random vector, never both on the same representation.',
     [REP, PS, OPS, OPB], [('lazy basis/projector of sums and direct products', PS), ('default projector', REP)], LIN,
     'dimension <= 48; tolerance 2e-3 on the unit box')
prop('C07', 'Canonical ordering is a consistent change of coordinates',
     'Canonicalizing a representation returns a permutation which maps vectors of the original to vectors of the canonical representation so that the group acts compatibly, reorderings of the same summands and factors share one canonical form, and splitting a vector by type yields blocks that transform in that type.',
     ['inputs', 'programs', 'configurations'], 'all vectors, all matrices, all expressions of the family, all group orderings',
     'The tests only use canonicalization implicitly through two products of two groups.',
     [PS, REP], [('canonical order of sums and products', PS), ('as_dict', PS)], LIN, 'dimension <= 30, matrices of size 2-4')
prop('C08', 'Lazy linear operators equal the dense matrices they stand for',
     'Any expression built from lazy operators with sums, differences, scalings, products, powers, Kronecker products and sums, direct sums, concatenation, transposes and adjoints applies to vectors and batches, and densifies, exactly as the corresponding dense real or complex matrix expression.',
     ['inputs', 'programs'], 'all real and complex matrix entries, all vectors and batches, a generated family of operator expressions',
     'There is no test of the operator algebra at all; adjoints of most operators are unused by the test suite.',
     [OPS, OPB], [('structured operators', OPS), ('operator algebra', OPB)], LIN, 'dimension <= 24; operator expressions of depth <= 3; complex scalars as pairs of reals')
prop('C09', 'The inverse transpose of a lazy operator is exactly that',
     'For every invertible lazy operator which offers an inverse transpose, its inverse transpose composed with the transpose is the identity.',
     ['inputs', 'programs'], 'all invertible entries, all vectors, the family of operator expressions',
     'Tests reach it only through duals of base representations of a few groups.',
     [OPS, OPB], [('invT of structured operators', OPS), ('invT of composed operators', OPB)], LIN, 'dimension <= 24; inv(M) by contract')
prop('C10', 'Every group has exactly the generators of the group it names',
     'For each library group and size, the infinitesimal generators span exactly the Lie algebra of the named group (right equations, right dimension, linearly independent), and the discrete generators satisfy and generate the relations of the named group, including embeddings and direct products.',
     ['inputs', 'configurations'], 'all linear combinations of the generators; all groups and sizes in the bound',
     'A group with a missing or superfluous generator passes all equivariance tests that sample that same group.',
     [GR], [('group constructors', GR)], SYM % 'span and relation queries in linear real arithmetic, cube labellings and words as finite-domain queries', 'n <= 5 (7 thorough); the Rubik group up to relabelling of stickers')
prop('C11', 'Orthogonality and permutation flags are never wrong',
     'A group is only treated as orthogonal when its generators are (so that dual and primal agree), and is treated as a permutation group only when every generator permutes the coordinates; exactly orthogonal generators are always recognised.',
     ['inputs', 'configurations'], 'all real generator matrices of a user defined group in the bound; all library groups',
     'Tests only run library groups; a wrong flag silently identifies inequivalent representations.',
     [GR], [('flag detection', GR)], PATH % 'nonlinear real arithmetic', 'user groups with up to two 2x2 or one 3x3 generators, entries in [-4,4]')
prop('C12', 'Sampled group elements belong to the group',
     'Every sampled element is a product of exponentials of Lie algebra combinations and integer powers (of either sign) of discrete generators, hence satisfies the defining equations of the group for every random draw; batches have one independent element per row.',
     ['inputs', 'configurations'], 'all noise vectors, all integer powers in the range drawn, all generator matrices',
     'Tests trust the samples: all equivariance tests would pass vacuously if samples were trivial, and fail to notice samples outside of the group for most powers.',
     [GR], [('sampling', GR)], LIN, 'd <= 4, powers -5..4, up to 3 discrete generators; expm by contract')
prop('C13', 'Automatic hidden representations have the requested number of channels',
     'For every number of channels and every group dimension the heuristic allocation returns a representation of exactly that size, consisting of tensors of the group, whatever the random draws.',
     ['inputs', 'configurations'], 'all channel counts and random draws in the bound, group dimensions 2..6',
     'Tests use one channel count; the leftover handling depends on the residue of the count and on random draws.',
     [OB], [('channel allocation', OB)], PATH % 'linear integer arithmetic', 'channels <= 300 (1500 thorough) and stretches up to a million; ranks up to 6 (7)')
prop('C14', 'Gated nonlinearities are equivariant',
     'For every hidden representation, gating adds one invariant scalar for each copy of a type that is neither scalar nor permutation, and applying the nonlinearity commutes with the group action for every input.',
     ['inputs', 'programs', 'configurations'], 'all inputs and all group matrices (permutation groups: all generators), all representations of the family',
     'Tests sample one group element per dataset and use canonical sums only.',
     [OB, PT, FL, HK], [('gating and index bookkeeping', OB), ('per-framework nonlinearity', PT)], SYM % 'uninterpreted sigmoid with congruence', 'dimension <= 30; sigmoid uninterpreted')
prop('C15', 'The bilinear layer is equivariant for every parameter and input',
     'For all parameters, inputs and random index choices, the cheap bilinear layer commutes with the group action and consumes exactly the number of parameters it declares.',
     ['inputs', 'programs', 'configurations'], 'all parameters and inputs in the unit box, all generators, drawn and extreme index choices',
     'Tests exercise it inside a whole network with one sampled element and small weights, where its contribution is scaled by 0.1.',
     [REP, OB, PT, FL, HK], [('bilinear weights', REP), ('layers', OB)], LIN, 'input and output dimension <= 20')
prop('C16', 'Linear layers of every framework are equivariant for all weights',
     'For all weights, biases and inputs, the equivariant linear layer of each framework commutes with every generator of the group, and equals the orthogonal projection of its unconstrained weights.',
     ['inputs', 'programs', 'configurations'], 'all weights, biases, inputs in the unit box; all generators; four frameworks',
     'Tests sample initial weights once; most frameworks are tested with one dataset.',
     [OB, PT, FL, HK, REP], [('linear layers', OB), ('linear layers', PT), ('linear layers', FL), ('linear layers', HK)], LIN, 'input x output dimension <= 60; tolerance 5e-3 on the unit box')
prop('C17', 'EMLP networks are equivariant end to end',
     'A network from one representation to another commutes with the group action for every input, however its hidden layers are specified (channel count, one representation, or a list), for all frameworks and for the ODE and Hamiltonian variants.',
     ['inputs', 'configurations'], 'all inputs in the unit box; seeded weights; all generators; all ways of specifying the hidden layers',
     'Tests sample inputs and group elements for single configurations; the equivariance identity must hold for every input and element.',
     [OB, PT, FL, HK], [('network assembly', OB), ('blocks', PT)], SYM % 'uninterpreted activations', 'hidden dimension <= 12, 1-2 hidden layers, seeded weights; infinitesimal equivariance for continuous groups')
prop('C18', 'The torch bridge preserves values and gradients',
     'A jax function wrapped for torch returns the function values and its backward pass returns the vector-Jacobian product for every input and cotangent, with and without gradients requested, for several inputs and outputs.',
     ['inputs', 'programs'], 'all inputs and cotangents of the listed functions',
     'The tests check one forward pass.', [PT], [('bridge', PT)], LIN, 'listed functions with up to 3 arguments of up to 6 entries')
prop('C19', 'Dataset targets obey the symmetry the dataset declares',
     'For each synthetic regression dataset the target is an equivariant function of the features under the declared group and representations, and the normalisation statistics do not break the symmetry; the classification datasets scramble every test example by an element of the group, keeping its label, and no two examples of different labels are related by the group.',
     ['inputs', 'configurations'], 'all feature values, all generators of the declared group',
     'No test checks a dataset; training on a non-equivariant target only shows as poor accuracy.', [DS], [('synthetic datasets', DS)],
     SYM % 'polynomial and uninterpreted-function identities', 'N = 1-3 samples; transcendental functions uninterpreted with their derivatives; orbits of labelled states by finite-domain queries')
prop('C20', 'Group augmentation conjugates the model by each sampled element',
     'In training, row i of the augmented model is the inverse output action of its own sampled element applied to the model on the transformed row; in evaluation it is the model itself.',
     ['inputs', 'configurations'], 'all inputs, all sampled matrices, polynomial models', 'No test constructs it.', [DS], [('augmentation', DS)], LIN, 'batch of 2, dimension <= 6')
prop('C21', 'Groups and representations that compare equal are interchangeable',
     'Two groups that compare equal have the same generators and two representations that compare equal (and so share cached solutions) have equal hashes and act identically; different arguments never collide.',
     ['inputs', 'configurations', 'histories'], 'all integer arguments of the group constructors; all pairs of representations of the family',
     'A collision only matters for pairs of objects living in one process; tests build one at a time.', [GR, REP, PS], [('group identity', GR), ('representation equality', PS)],
     PATH % 'strings and linear integer arithmetic', 'library groups; pairs from the expression family')
prop('C22', 'Simulated dynamics implement the stated physics',
     'The Hamiltonian vector field is the symplectic gradient of the Hamiltonian for every state; batched rollouts of Hamiltonians and learned dynamics integrate each row on its own; the example systems have the stated energies and forces and are invariant under their declared group; trajectory data sets consist of runs of consecutive states of one trajectory with matching evaluation times, and are the same when loaded again; rollout losses and errors compare the model with the true system.',
     ['inputs', 'configurations'], 'all phase space points, Hamiltonians with free coefficients, time grids, chunk choices', 'No test covers the dynamics code.', [HD], [('dynamics', HD)], LIN, 'phase spaces of dimension 2-6 (12 for the pendulum), 1-3 trajectories, 2-4 times; odeint replaced by explicit steps; sqrt and reciprocal by their defining equations')
prop('C23', 'The constraint matrix and the equivariance error measure equivariance',
     'The constraint matrix of a representation annihilates a vector exactly when every (ρ(h)-1)v over discrete and dρ(A)v over infinitesimal generators vanishes, and its products with vectors, batches, transposes and its dense form agree; the reported equivariance error is the relative norm of Wρin(g)-ρout(g)W over the sampled elements.',
     ['inputs', 'programs'], 'all vectors, all weight matrices, all sampled group matrices', 'Tests use the error as their oracle, so an error that is always small makes them pass.', [REP, OPS],
     [('constraints', REP), ('error measure', REP)], LIN, 'dimension <= 24')
prop('C24', 'Standardization is the affine change of units',
     'Wrapping a model in standardization normalises inputs with the input statistics and rescales outputs with the output statistics for every input and every statistics tuple, with two or four entries, in every framework that offers it; the networks of the library accept the flag it passes on.',
     ['inputs', 'configurations'], 'all inputs and statistics', 'Tests run it with trivial statistics (0, 1, 0, 1) or once with data statistics.', [OB, PT, FL, HK], [('Standardize', OB)], LIN, 'models affine or quadratic, dimension 3')

prop('C25', 'Training follows the stated loss and reports averages over the whole data set',
     'Training performs one gradient step per minibatch, in order, on the mean squared error or cross entropy of the model in training mode, at the learning rate scheduled for the fractional epoch, for every history of train, train_to and single steps, after which the epoch counter is the number of epochs trained; reported metrics are averages over all examples of a data set however it is divided into minibatches, with the model in evaluation mode; the equivariance metric compares the model on transformed inputs with its transformed outputs, each row under its own sampled element; the checkpoint is that of a best state so far.',
     ['inputs', 'histories', 'configurations'], 'all parameters, inputs, targets and learning rates, all orders of logged metrics, several divisions into minibatches and call histories', 'No test covers the training code, and a wrong step or average only shows as slightly worse numbers.', [TR, CL, MT],
     [('training loop and metrics', TR), ('losses', CL), ('equivariance metric', MT)], SYM % 'linear real arithmetic over abstracted monomials; symbolic integers with path forking for the checkpoints', 'linear models, 1-5 examples in up to 3 minibatches, up to 4 steps, 2-4 logged metrics; exp, log, argmax uninterpreted')

BUILT = [p['id'] for p in P if os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.py'))]
NA = {}
if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k not in ('technique', 'note')}, ensure_ascii=False) + '\n')
    m = dict(version=1, setup_cmd='bash setup.sh',
             checks=[dict(property=p['id'], quick_cmd='bash check.sh %s quick' % p['id'], thorough_cmd='bash check.sh %s thorough' % p['id'],
                          technique=p['technique'], level='other', level_note='bounded, decided by z3: ' + p['note']) for p in P if p['id'] in BUILT],
             not_applicable=[dict(property=p['id'], reason=NA.get(p['id'], 'check not built yet')) for p in P if p['id'] not in BUILT])
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
    print(len(P), len(BUILT))
