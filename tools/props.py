"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'discs/samplers/'
TECH = ('contract-based deductive verification: contracts on the real '
        'functions; verification conditions generated from the jaxpr of the '
        'current source (symbolic sizes); discharged by a normal-form/case-'
        'split prover and z3')
P = []
NA = []


def prop(pid, title, statement, over, text, why, files, mech, note,
         level='proof'):
  P.append((dict(id=pid, title=title, statement=statement,
                 quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[
                     dict(name=n, where=w) for n, w in mech])), note, level))


MH = [S + f for f in ('randomwalk.py', 'gwg.py', 'dmala.py', 'dlmc.py',
                      'path_auxiliary.py')]
prop('C01', 'Metropolis-Hastings steps leave the target distribution invariant',
     'For the random-walk, Gibbs-with-gradients, DMALA, DLMC and path-'
     'auxiliary samplers with a fixed proposal, and for every target '
     'distribution, one step satisfies detailed balance: for every outcome of '
     'the proposal the reverse outcome leads back, and the proposal is '
     'accepted exactly when log u is below the log of (target ratio x reverse '
     'proposal probability / forward proposal probability). Both proposal '
     'probabilities are those of the distributions actually drawn from, '
     'separately for every chain of the batch.',
     ['inputs', 'configurations'],
     'all log-densities/gradients, states, batch sizes, dimensions, numbers of '
     'categories, random outcomes and sampler parameters, binary and '
     'categorical variants',
     'The tests sample a few hundred steps of small models; an acceptance '
     'ratio that is wrong for one move, one chain or one parameter value '
     'biases the chain without any test failing.',
     MH + ['discs/common/math_util.py'],
     [('step / select_sample acceptance', S + '*.py'),
      ('mh_step', 'discs/common/math_util.py')],
     'proved for symbolic batch size, dimension and category count (path '
     'length <= 3, num_flips <= 2); CO-mode samplers whose step size is '
     'recomputed from the batch are covered only for the fixed step size')
prop('C02', 'Gibbs-type updates draw from the exact conditional distribution',
     'A Gibbs step resamples one coordinate, a block-Gibbs step one block and '
     'a Hamming-ball step one block through its auxiliary centre, each from '
     'the exact conditional distribution of the target given everything held '
     'fixed. Every value of the resampled part can be drawn with its '
     'conditional probability, and the coordinates outside it are unchanged.',
     ['inputs', 'configurations'],
     'all targets, states, sweep positions (including blocks that overhang the '
     'end), category counts and sizes',
     'Tests look at shapes or at averages over a short chain; a wrong '
     'conditional at one sweep position is invisible there.',
     [S + f for f in ('gibbs.py', 'blockgibbs.py', 'hammingball.py')],
     [('enumeration of the block values and their log-densities',
       S + 'blockgibbs.py'), ('radius draw and ball enumeration',
                              S + 'hammingball.py'),
      ('sweep loop', S + 'gibbs.py')],
     'block size <= 2 and Hamming radius <= block size enumerated; batch, '
     'dimension and category count symbolic')
prop('C03', 'Steps return proposal or current state; acceptance is reported truly',
     'A Metropolis-Hastings step returns, per chain, either exactly the '
     'proposed state or exactly the current one, never a mixture of the two. '
     'The acceptance rate it returns is the mean over chains of the true '
     'acceptance probability min(1, ratio).',
     ['inputs', 'configurations'],
     'all targets, states, random outcomes, batch sizes, dimensions',
     'Tests never compare the reported statistic with the decision that was '
     'taken.', MH + ['discs/common/math_util.py'],
     [('acceptance statistic', S + '*.py step'),
      ('mh_step', 'discs/common/math_util.py')],
     'symbolic sizes; same scenarios as C01')
prop('C04', 'Every sampler step returns a valid state of the same shape',
     'From a valid state every sampler returns a state of the same shape whose '
     'entries are again valid category values (0 or 1 for binary models). '
     'Positions excluded by a mask keep their value, and every proposal the '
     'sampler evaluates is itself a valid state.',
     ['inputs', 'configurations'],
     'all samplers and variants, targets, states, random outcomes, masks, sizes',
     'Range violations appear only for particular draws (last category, '
     'wrap-around, clipped rates).',
     MH + [S + f for f in ('gibbs.py', 'blockgibbs.py', 'hammingball.py')],
     [('one-hot/index arithmetic of the proposals', S + '*.py')],
     'symbolic sizes')
prop('C05', 'Chains of a batch are independent',
     'Every random draw of a step uses its own random key and every chain '
     'receives its own draw. A chain\'s next state depends only on its own '
     'state and draws: replacing the other chains of the batch leaves it '
     'unchanged, except through what a batch shares by design (adapted '
     'step sizes and the Hamming radius).',
     ['inputs', 'configurations'],
     'all samplers and variants, states, draws, batch sizes',
     'Cross-chain leaks keep shapes and ranges and are invisible in single '
     'runs.', MH + [S + f for f in ('gibbs.py', 'blockgibbs.py',
                                    'hammingball.py')],
     [('key splitting', S + '*.py step'), ('batched draws', S + '*.py')],
     'symbolic sizes; CO-mode DMALA/DLMC exempt from the state-independence '
     'part (step size is a batch statistic by design)')
prop('C06', 'Sampler bookkeeping and step-size adaptation follow the documented rule',
     'Each step advances the energy-evaluation counter by the documented '
     'number of evaluations and, except in the random walk, the step counter '
     'by one; Gibbs-type samplers advance their sweep '
     'position cyclically. Adaptive samplers move the radius or step size '
     'toward the target acceptance rate within its bounds, on the scheduled '
     'steps only, the first step of DMALA and DLMC derives its step size from '
     'the rates at the current states, and non-adaptive samplers leave it '
     'untouched afterwards.',
     ['inputs', 'histories', 'configurations'],
     'all states of the counters and adaptation variables, all draws',
     'Tests run a handful of steps from the initial state and do not look at '
     'the adaptation variables.',
     MH + [S + f for f in ('gibbs.py', 'blockgibbs.py', 'hammingball.py',
                           'abstractsampler.py', 'locallybalanced.py')],
     [('state update', S + '*.py step'), ('adaptation', S + '*.py')],
     'symbolic sizes and arbitrary previous state, first step included')
prop('C07', 'Balancing functions satisfy the local-balance identity',
     'Each configurable weight function g (square root, ratio, max, min) is '
     'the documented function, satisfies g(t) = t g(1/t) for every positive '
     'ratio, acts elementwise, and its log-scale and direct forms agree.',
     ['inputs', 'configurations'], 'all real log-ratios and array shapes',
     'A sign or scale error on one side of 1 keeps samplers running and '
     'accepted moves plausible.',
     [S + 'locallybalanced.py'],
     [('apply_weight_function(_logscale)', S + 'locallybalanced.py')],
     'all four functions, all real arguments')
prop('C08', 'Shared sampling primitives realise their documented distributions',
     'Multinomial sampling with and without replacement, fixed or run-time '
     'count, selects exactly the entries its noise determines and returns the '
     'true log-likelihood of the ordered selection. The accept/reject '
     'primitive, Gumbel noise, log(1-e^-x), product and binomial-coefficient '
     'helpers compute their textbook functions.',
     ['inputs', 'configurations'],
     'all log-probability vectors, noise values, counts and sizes',
     'Likelihoods of sampled subsets are never compared with their '
     'definition in the tests.', ['discs/common/math_util.py'],
     [('multinomial, noreplacement_sampling_renormalize, log1mexp, mh_step, '
       'gumbel, comb, prod', 'discs/common/math_util.py')],
     'symbolic sizes; fixed draw counts 1-3; comb/prod are Python-integer '
     'functions and checked by enumeration (bounded)')
M = 'discs/models/'
EN = [M + f for f in ('bernoulli.py', 'categorical.py', 'ising.py', 'potts.py',
                      'fhmm.py', 'rbm.py', 'resnet.py', 'text_infilling.py')]
CO = [M + f for f in ('comb_ebm.py', 'maxcut.py', 'mis.py', 'maxclique.py',
                      'normcut.py')]
prop('C09', 'Model energies equal the documented log-densities',
     'For every parameter setting and every state, forward() of the Bernoulli, '
     'categorical, Ising, Potts, factorial-HMM, RBM, image-EBM and '
     'text-infilling models returns, per chain, the documented unnormalised '
     'log-density (every site, every neighbour pair once, every transition, '
     'observation and hidden unit, network plus base density annealed by the '
     'temperature, log-probability of each infilled word with its own position '
     'masked). Integer states and their float or one-hot encodings get the '
     'same value.',
     ['inputs', 'configurations'],
     'all parameters, states, lattice/sequence sizes, batch sizes and (where '
     'configurable) category counts',
     'Tests evaluate one or two small models on random states; a dropped '
     'boundary term or a wrong encoding keeps every shape.',
     EN, [('forward', M + '*.py'), ('log_probab_of_px*', M + 'fhmm.py'),
          ('NNBinary/NNCategorical.__call__', M + 'rbm.py')],
     'proved for symbolic sizes; categorical FHMM for 3 categories; the '
     'networks themselves (ResNet, BERT) are arbitrary functions; 1..3 infill '
     'positions')
prop('C10', 'get_value_and_grad returns the energy and its true gradient per chain',
     'For every model, the value part of get_value_and_grad equals forward '
     'and the gradient part is, for every chain separately, the gradient of '
     'that chain\'s documented log-density with respect to its own state. '
     'Padding of a problem instance (masked nodes, padded edges) contributes '
     'nothing to it.',
     ['inputs', 'configurations'],
     'all parameters, graphs, states, sizes',
     'Gradients steer the proposals; errors in them slow mixing but never '
     'fail a test.', EN + CO, [('get_value_and_grad', M + '*.py')],
     'symbolic sizes; derivatives are JAX\'s own (autodiff rules trusted), the '
     'reference is the derivative of the contract\'s log-density')
prop('C11', 'Combinatorial log-densities are objective over temperature',
     'For max-cut, maximum independent set, maximum clique and normalized cut '
     'the log-density of a state is the documented objective (cut weight, set '
     'size minus penalty per violated edge, clique size minus penalty per '
     'missing pair, minus cut or normalized-cut cost) divided by the '
     'temperature. evaluate() reports that objective for every temperature, '
     'and padded nodes and edges never count.',
     ['inputs', 'configurations'],
     'all graphs (any nodes, edges, weights, paddings), states, temperatures, '
     'penalties',
     'Tests have no combinatorial models with padding or several instances.',
     CO, [('objective / penalty / forward / evaluate', M + '*.py')],
     'symbolic graph sizes, weights, penalties and temperature; normalized '
     'cut with penalty 0 and 0.75, both balance costs')
prop('C12', 'Neighbourhood log-ratios are exact differences of log-densities',
     'logratio_in_neighborhood returns, for every state and every single-site '
     'change, exactly the difference between the log-density after and before '
     'the change, together with the log-density of the state itself. The '
     'neighbour function produces exactly that changed state, and masked nodes '
     'are never attractive.',
     ['inputs', 'configurations'],
     'all graphs, weights, states, sites/categories, paddings, temperatures',
     'The closed-form differences are written separately from the objective '
     'and no test compares the two.',
     [M + f for f in ('maxcut.py', 'mis.py', 'normcut.py', 'bernoulli.py',
                      'comb_ebm.py')],
     [('logratio_in_neighborhood', M + '*.py'), ('get_neighbor_fn',
                                                 M + 'comb_ebm.py')],
     'symbolic sizes; graphs without self-loops whose real edges join real '
     'nodes (what the loaders produce)')

prop('C13', 'Initial samples and generated parameters follow the model definition',
     'get_init_samples of every model returns the requested number of states '
     'of the configured shape, every site drawn separately for every sample, '
     'with every category possible and no other value (with the data '
     'frequencies where a model file gives them); for normalized cut every '
     'part is non-empty, and gaps of a text come from the language model with '
     'all gaps masked. Generated parameters of the Bernoulli, categorical, '
     'Ising, Potts and factorial-HMM models follow their documented law: '
     'scaled Gaussian weights, the +-mu field by position plus bounded noise, '
     'hidden chains and observations of the HMM itself.',
     ['inputs', 'configurations'],
     'all random draws, sizes, category counts and scale parameters',
     'Tests look at shapes of one small configuration; a value that never '
     'occurs or a shared draw is invisible to them.', EN + CO,
     [('get_init_samples / make_init_params', M + '*.py'),
      ('sample_X / sample_Y', M + 'fhmm.py')],
     'symbolic sizes; factorial HMM parameters for sequence length 3 (and 3 '
     'categories) only; which of the library\'s draws are independent is '
     'JAX\'s (trusted)')

X = 'discs/experiment/'
prop('C14', 'Annealed importance sampling accumulates the correct weights',
     'For every chain length, batch size, energy and transition kernel, the EBM '
     'experiment visits the inverse temperatures 1/L, ..., L/L in order and '
     'adds E(b_k, x) - E(b_k-1, x), at the state before the move, to each '
     'chain\'s own log-weight. It then moves every chain with the kernel at '
     'b_k, with the sampler state of the previous step and a random key of its '
     'own. It saves one estimate per temperature, the log of the mean weight.',
     ['inputs', 'histories', 'configurations'],
     'all chain lengths, batch sizes, energies, kernels, sampler states and '
     'random keys; one, two and three devices',
     'A run is one history of one length; an off-by-one temperature or an '
     'update order that biases the estimate gives plausible numbers.',
     [X + 'sampling.py'],
     [('EBM_Experiment._compute_chain loop invariant', X + 'sampling.py'),
      ('_initialize_model_and_sampler / preprocess', X + 'sampling.py')],
     'loop rule over a chain of arbitrary length; energy and kernel are '
     'uninterpreted functions; several devices emulated (pmap as vmap over the '
     'leading axis)')

prop('C15', 'Annealing follows the schedule and keeps the best solution found',
     'For every chain length, batch, objective and kernel, a combinatorial run '
     'moves every chain of every instance once per step at the configured '
     'schedule\'s temperature for that step, with fresh randomness, its own '
     'state and node mask. At every logging step the ratio of each instance\'s '
     'best chain to its reference value is folded into the best ratio, which '
     'never decreases and never mixes instances. Saved are the trajectory, '
     'the best ratios and (when asked for) the solutions attaining them, for '
     'the real instances only.',
     ['inputs', 'histories', 'configurations'],
     'all chain lengths, burn-in shares, objectives, kernels, temperatures, '
     'keys, sampler states; one to four instances per batch on one to three '
     'devices',
     'A run exercises one history; a stale temperature, a solution of another '
     'chain or a lost improvement gives plausible numbers.',
     [X + 'sampling.py'],
     [('CO_Experiment._compute_chain loop invariants', X + 'sampling.py'),
      ('_build_temperature_schedule', X + 'sampling.py')],
     'loop rule over a chain of arbitrary length, for constant, linear and '
     'exponential schedules (decay rate 0.25); objective and kernel are '
     'uninterpreted; 1..4 instances, 1..3 devices (pmap emulated by vmap)')
prop('C16', 'Sampling runs advance every chain and evaluate the mixing phase',
     'For every chain length, burn-in share, batch and kernel, a sampling run '
     'applies one kernel step per iteration to every chain, with fresh '
     'randomness and the state of the previous step. Exactly the states after '
     'burn-in, one distance to a fixed reference state per chain and step, '
     'reach the ESS evaluator, with the time and energy calls of the run. '
     'Saved samples are those of the selected chains at the saving steps.',
     ['inputs', 'histories', 'configurations'],
     'all chain lengths, burn-in shares, batch sizes, kernels, keys, sampler '
     'states; one, two and three devices',
     'One short run cannot show that no step is skipped, repeated or evaluated '
     'in the wrong phase for every length and burn-in share.',
     [X + 'sampling.py'],
     [('Sampling_Experiment._compute_chain loop invariants',
       X + 'sampling.py'), ('_compile_additional_fns / map',
                            X + 'sampling.py')],
     'loop rule over a chain of arbitrary length; kernel and evaluator are '
     'uninterpreted; 1..3 devices (pmap emulated by vmap over the leading axis)')
prop('C17', 'Text infilling evaluates every sampled sentence and the top k',
     'For every chain length, kernel and language model, every resample of '
     'every data point contributes the sentence decoded from the final state '
     'of a chain that took one step per iteration with randomness of its own. '
     'With top-k selection, the sentences kept are those with the highest '
     'likelihoods, unchanged. Both sets, complete, are what is evaluated and '
     'saved.',
     ['inputs', 'histories', 'configurations'],
     'all chain lengths, kernels, likelihoods and random keys; sampled numbers '
     'of data points and resamples',
     'Needs a language model to run at all; the bookkeeping around it is '
     'untested.', [X + 'sampling.py', M + 'text_infilling.py'],
     [('Text_Infilling_Experiment.get_results / _get_chains_and_evaluations / '
       '_compute_chain', X + 'sampling.py')],
     'loop rule for the chain; numbers of data points and resamples are '
     'bounded (concrete); decoding and evaluator are stubs')
prop('C18', 'Evaluators report the documented metrics',
     'The ESS evaluator reports the mean and spread over chains of each '
     'chain\'s own effective sample size (1 where undefined), and ESS per '
     'step, per second and per energy call of the evaluated part of the run. '
     'The Bernoulli moment errors and the n-gram novelty and BLEU metrics '
     'equal their definitions.',
     ['inputs', 'configurations'],
     'all sample arrays, chain lengths, burn-in shares, times and call counts; '
     'seeded corpora for the text metrics',
     'There are no tests of evaluators.',
     ['discs/evaluators/' + f for f in ('ess_eval.py', 'bernoulli_eval.py',
                                        'lm_eval.py')],
     [('get_eval_metrics / evaluate', 'discs/evaluators/*.py')],
     'proved for ESS and moments (the per-chain ESS of '
     'tensorflow_probability is uninterpreted); text metrics bounded: seeded '
     'small corpora, nltk trusted')
GLD = 'discs/graph_loader/'
prop('C19', 'Problem instances are loaded, encoded and delivered faithfully',
     'For every graph and padding the encoded arrays hold every edge exactly '
     'once per direction with its own weight, and mask out exactly the padding '
     'of edges and nodes, so the encoded objective is that of the graph. '
     'Every loader yields every instance of its data set once, in order, with '
     'its own reference value, and the iterator delivers full batches, padded '
     'at the end only with instances marked -1.',
     ['inputs', 'configurations'],
     'all graphs and paddings (encoding); enumerated small graphs, data sets, '
     'batch sizes and process counts (loading and delivery)',
     'No test touches the loaders.',
     [GLD + f for f in ('common.py', 'graph_gen.py', 'maxcut_loader.py',
                        'mis_loader.py', 'maxclique_loader.py',
                        'normcut_loader.py')] + ['discs/common/utils.py'],
     [('graph2edges', 'discs/common/utils.py'), ('get_iterator',
                                                 GLD + 'common.py'),
      ('sample_gen', GLD + '*.py')],
     'graph2edges (shared and per problem) proved for symbolic numbers of '
     'nodes, edges and padding; loaders, iterator and random graphs are '
     'bounded: enumerated small graphs and files in a scratch directory')
prop('C20', 'Saved results are complete and are what the run computed',
     'The result files of a run hold exactly what was handed to the saver: '
     'best ratios, trajectories, solutions and total time of all batches of '
     'instances of a combinatorial run, samples, parameters, log-partition '
     'estimates and text metrics. The results table has one row with every '
     'metric under its own name and the sampler variant that ran.',
     ['inputs', 'histories', 'configurations'],
     'all values and sizes handed to the saver, up to three batches of '
     'instances; enumerated sampler configurations',
     'No test looks at saved files.', ['discs/common/experiment_saver.py'],
     [('save_co_resuts / save_results / dump_* / save_*',
       'discs/common/experiment_saver.py')],
     'proved with opening, pickling and csv writing recorded (trusted to store '
     'what they are given), up to three batches; real files and the sampler '
     'label are bounded: enumerated calls in a scratch directory')
LN = 'discs/learning/'
prop('C21', 'Training follows persistent contrastive divergence',
     'For every model, sampler, data batch and optimizer, a training step moves '
     'the persistent chains by the configured number of sampler steps, each '
     'with its own key and the sampler state of the one before, and applies the '
     'optimizer to the gradient of the mean log-density of the moved chains '
     'minus that of the data, averaged over devices. The running average of '
     'the parameters, the learning-rate schedule, checkpoints and step counts '
     'follow the configuration. The replay buffer hands out distinct entries, '
     'restarts the configured share and stores moved chains where they came '
     'from.',
     ['inputs', 'histories', 'configurations'],
     'all parameters, chains, data, sizes, keys, models, samplers and '
     'optimizers; 1..3 sampler steps per update; up to three loop steps',
     'Nothing in discs/learning is tested; a wrong sign or a dropped chain '
     'still trains something.',
     [LN + f for f in ('train.py', 'replay_buffer.py',
                       'binary_ebm/main_binary_training.py',
                       'rbm/main_rbm_training.py')] +
     ['discs/common/utils.py'],
     [('Trainer.global_update_fn / train_loop / init_states', LN + 'train.py'),
      ('EBMTrainer', LN + 'binary_ebm/main_binary_training.py'),
      ('RBMTrainer', LN + 'rbm/main_rbm_training.py')],
     'model, sampler and optimizer are arbitrary functions, pmap is taken as '
     'vmap over its axis; replay buffer and data mean are bounded (numpy '
     'draws); the training loop is unrolled for up to three steps')

prop('C22', 'A run works with the settings its configuration files give',
     'For every content of the model, sampler and experiment files, the merged '
     'configuration has each sampler and model setting from the sampler and '
     'model file (for graph problems completed and overridden by the data '
     'set\'s own configuration for the given configuration string) and each '
     'experiment setting from the experiment file where it gives one, else the '
     'combinatorial default for graph problems, else the common default; graph '
     'runs use the data set\'s number of models, and local runs save under the '
     'model\'s directory. The entry point builds the named model, sampler, '
     'evaluator and saver from that configuration and runs the named '
     'experiment on exactly those.',
     ['inputs', 'configurations'],
     'all values of the settings; four patterns of which settings the '
     'experiment file gives; all combinations of the shipped files',
     'No test goes through the entry point; a setting that is silently '
     'overridden still runs.',
     ['discs/experiment/main_sampling.py', 'discs/common/configs.py',
      'discs/experiment/configs/co_experiment.py', 'discs/common/utils.py'],
     [('get_main_config / update_save_dir / main',
       'discs/experiment/main_sampling.py')],
     'values are symbolic, which settings are given is enumerated (all, none, '
     'every other); ml_collections runs as is, flag parsing is trusted; the '
     'shipped files and configuration strings are bounded')


def main():
  with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p, _, _ in P:
      assert len(p['title']) <= 80, p['title']
      assert p['statement'].count('. ') <= 2, p['id']
      f.write(json.dumps(p) + '\n')
  na = {n['property'] for n in NA}
  m = dict(version=1, setup_cmd='true', checks=[
      dict(property=p['id'], quick_cmd='./check.sh %s' % p['id'],
           thorough_cmd='./check.sh %s --thorough' % p['id'],
           technique=TECH, level=lv, level_note=note)
      for p, note, lv in P if p['id'] not in na], not_applicable=NA)
  with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')


if __name__ == '__main__':
  main()
