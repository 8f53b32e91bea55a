import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if state: a['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: a['observe_at']=observe
    a['hook_needed']=None
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))
M='pymcmcstat/MCMC.py'; S='pymcmcstat/samplers/'; PR='pymcmcstat/procedures/'; SE='pymcmcstat/settings/'; CH='pymcmcstat/chain/'
p('C01','Every single-stage transition is an exact Metropolis step',
 'At every step the first candidate is the current sample plus a standard normal vector times the current proposal factor, and it becomes the next sample exactly when the logarithm of the uniform draw is below the difference of the log posteriors, -1/2 (sum_i SS_i/sigma2_i + prior), evaluated with the current error variances. Otherwise the current sample is repeated. Every row of the sum-of-squares chain is the sum-of-squares function evaluated at the parameter values of the same row of the chain.',
 ['inputs','histories','configurations'],'every model, prior, error variance vector, random stream and length of run, with one or several sum-of-squares components and any subset of sampled parameters',
 'Unit tests call single helpers with mocked neighbours; no test relates a whole recorded run (candidates, draws, decisions, chain rows) to the posterior.',
 [M,S+'Metropolis.py',S+'utilities.py',PR+'PriorFunction.py',PR+'SumOfSquares.py'],
 [('Metropolis.run_metropolis_step',S+'Metropolis.py'),('log_posterior_ratio_acceptance_test',S+'utilities.py'),('MCMC.__update_chain',M)],
 [('old_set','current sample, its sum of squares, prior and error variance',M)],['sos_function calls','np.random draws','results chain/sschain'])
p('C02','Samples and model evaluations never leave the parameter limits',
 'Every row of the chain lies within the (inclusive) minimum and maximum of every sampled parameter, and neither the sum-of-squares function nor the prior is evaluated at a candidate outside them, at any try. A candidate outside the limits is treated as having zero posterior probability: it is rejected (and handed to the next delayed rejection try, if any), and a step whose last try was outside the limits and was not accepted is counted as rejected outside bounds. Candidates exactly on a limit are inside.',
 ['inputs','histories','configurations'],'every placement of finite and infinite limits, every random stream, every number of tries',
 'Tests check the comparison helper on a few vectors; not that no path (first try, later try, after adaptation, fixed parameters shifting the columns) evaluates or stores an outside value.',
 [S+'utilities.py',S+'Metropolis.py',S+'DelayedRejection.py',M],
 [('is_sample_outside_bounds',S+'utilities.py'),('set_outside_bounds',S+'utilities.py'),('run_delayed_rejection',S+'DelayedRejection.py')],None,['sos_function calls','results chain','results rejected_outside_bounds'])
p('C03','Delayed rejection uses the exact n-stage acceptance probability',
 'After a rejected try, and while fewer than ntry tries were made, a new candidate is drawn around the current sample with the proposal factor divided by the cumulative product of the drscale entries (the last entry repeats), and it is accepted with the n-stage delayed rejection probability of Haario et al. (2006) / Mira, which makes the chain reversible for the posterior; the first accepted candidate becomes the next sample. Candidates of earlier tries, including those outside the limits, enter that probability with their own posterior values.',
 ['inputs','histories','configurations'],'every number of tries, drscale length and value, posterior, prior, limits and random stream; also after every adaptation',
 'Tests evaluate the acceptance function on fixed tuples and pin a few numbers; they do not relate it to the reversibility condition, to more than a few stages, or to tries outside the limits.',
 [S+'DelayedRejection.py',S+'Adaptation.py',PR+'CovarianceProcedures.py',M],
 [('DelayedRejection.alphafun',S+'DelayedRejection.py'),('nth_stage_log_proposal_ratio',S+'DelayedRejection.py'),('update_delayed_rejection',S+'Adaptation.py')],
 [('RDR/invR','proposal factors and inverses per try',PR+'CovarianceProcedures.py')],['np.random draws','sos_function calls','results chain'])
p('C04','Parameters keep their identity: fixed ones constant, columns in order',
 'Every call of the sum-of-squares or model function receives the full parameter vector in the order the parameters were added: fixed (sample=False) entries always equal their initial value, sampled entries equal the candidate. Column j of the chain, its limits, prior, and name in the results belong to the j-th sampled parameter; the final theta in the results is the full vector with the last sample.',
 ['inputs','configurations','histories'],'every number and order of parameters, every subset of fixed and of non-adapted parameters',
 'Tests cover a few layouts of the parameter structure; not that whole runs with fixed parameters in any position keep mapping and values.',
 [SE+'ModelParameters.py',PR+'SumOfSquares.py',M,'pymcmcstat/structures/ResultsStructure.py'],
 [('ModelParameters._openparameterstructure',SE+'ModelParameters.py'),('SumOfSquares.evaluate_sos_function',PR+'SumOfSquares.py')],
 [('_parind','indices of sampled parameters',SE+'ModelParameters.py')],['sos_function calls','results'])
p('C05','Adaptation happens on schedule and yields the right proposal covariance',
 'The proposal factor changes only at every adaptint-th step of a run, and not after step lastadapt or for methods without adaptation. Before burnintime it is multiplied (divided) by burnin_scale if fewer than 5% (more than 95%) of the steps since the last adaptation point were rejected; from burnintime on its square equals adascale squared (default 2.4^2/npar) times the sample covariance of all chain rows before the current one (started from the initial covariance with weight initqcovn if given), where rows and columns of non-adapted parameters keep the initial covariance, qcov_adjust is added to the diagonal only if that matrix is singular, and the factor is kept if it remains singular. The factors of the delayed rejection tries always follow.',
 ['histories','inputs','configurations'],'every accept/reject history, adaptation interval, burn-in, lastadapt, non-adapted subset, initial weight, continued run',
 'Tests feed single update calls; the covariance after many windows, after burn-in, in continued runs and for degenerate histories is not compared with its definition.',
 [S+'Adaptation.py',PR+'CovarianceProcedures.py',M],
 [('Adaptation.run_adaptation',S+'Adaptation.py'),('update_covariance_mean_sum',S+'Adaptation.py'),('check_for_singular_cov_matrix',S+'Adaptation.py')],
 [('_covchain,_meanchain,_wsum','running covariance, mean and weight',PR+'CovarianceProcedures.py'),('_last_index_since_adaptation','first chain row not yet included',PR+'CovarianceProcedures.py')],['proposal factor at each step','results cov, mean, qcov'])
p('C06','The initial proposal follows the settings of the sampled parameters',
 'The square of the first proposal factor equals the sampled rows and columns of the qcov matrix, or the diagonal matrix of the sampled entries of a qcov vector; without qcov it is diagonal with the squared prior standard deviation, or, if that is infinite, (5% of the initial value)^2, or 1 if that is zero. If RDR is given its factors are used for the tries instead. The results report the original and final covariance, factors and scale consistently with what was used.',
 ['inputs','configurations'],'every combination of qcov form, prior, initial values (including zero and negative), fixed parameters, adascale, RDR, ntry and method',
 'Tests pin a few matrices; not the combination with fixed parameters, zero initial values, several tries and all methods.',
 [PR+'CovarianceProcedures.py','pymcmcstat/structures/ResultsStructure.py'],
 [('setup_covariance_matrix',PR+'CovarianceProcedures.py'),('__setup_R_matrix',PR+'CovarianceProcedures.py'),('__setup_RDR_matrix',PR+'CovarianceProcedures.py')],None,['first candidates','results R, RDR, qcov, qcovorig, original_covariance'])
p('C07','Error variances are drawn from their conjugate posterior every step',
 'When the error variance is updated, every step draws each component i of the error variance from the inverse gamma distribution with shape (N0_i+N_i)/2 and scale (N0_i*S20_i+SS_i)/2, where SS is the sum of squares of the sample just stored and N0, S20, N never change during a run; the draw is stored in the same row of the error variance chain and used for the next decision. When it is not updated, there is no such chain and the initial error variance is used throughout.',
 ['inputs','histories','configurations'],'every N0, S20, sigma2, N, number of components, random stream and accept/reject history',
 'Tests check shapes and fixed-seed values of the gamma generator; not that shape, scale and the current sum of squares are paired correctly over a run or that the prior scale does not drift.',
 [PR+'ErrorVarianceEstimator.py',M,SE+'ModelSettings.py'],
 [('update_error_variance',PR+'ErrorVarianceEstimator.py'),('_gammar_mt1',PR+'ErrorVarianceEstimator.py')],None,['np.random draws','results s2chain'])
p('C08','Rejection and acceptance statistics account for every step',
 'total_rejected is the number of steps of the run that repeated the previous sample divided by nsimu, rejected_outside_bounds counts exactly the rejected steps whose last try was outside the limits, and iacce[j] counts the steps accepted at try j+1, the initial sample counting as accepted at the first try, so that the entries of iacce and the number of rejected steps add up to nsimu. The chain, sum-of-squares chain and error variance chain have one row per simulated sample and the results contain the arrays that were sampled.',
 ['histories','configurations'],'every sequence of accept at try j / reject / reject outside limits, every ntry and run length',
 'Tests check the counters on single calls with mocks; not that they balance over arbitrary histories.',
 [M,S+'DelayedRejection.py','pymcmcstat/structures/ResultsStructure.py'],
 [('MCMC.__update_rejected',M),('ResultsStructure.add_dram','pymcmcstat/structures/ResultsStructure.py')],[('__rejected','rejection counters',M),('iacce','accepted per try',S+'DelayedRejection.py')],['results'])
p('C09','Continuing a simulation extends the same Markov chain',
 'Running again with use_previous_results keeps every existing row of the chains unchanged, starts from the last sample and last error variance, and appends exactly nsimu-1 rows per continued run; acceptance, adaptation (whose sample covariance covers the complete chain), error variance updates and statistics follow the same rules as in one run, with counters restarted for the continued run. Without a previous run it is refused.',
 ['histories','configurations'],'every number of continued runs with changed or unchanged options, for every kind of model, number of data sets and error variance setting',
 'Tests check array shapes after one expansion; not the content, the starting point, or that settings survive a second initialization.',
 [M,SE+'ModelParameters.py',SE+'ModelSettings.py',S+'Adaptation.py'],
 [('MCMC.__setup_simulator',M),('MCMC.__expand_chains',M),('ModelParameters._results_to_params',SE+'ModelParameters.py')],None,['results chain/sschain/s2chain'])
p('C10','Restart from a results file resumes at the saved sample and proposal',
 'A run with json_restart_file starts at the last sample of the saved run for every sampled parameter, matched by name even if the parameters were added in another order, uses the saved final proposal covariance as its initial proposal covariance, and keeps fixed parameters, limits and priors as currently defined. A missing prior mean (NaN) refers to the originally declared initial value, not to the restart value. Later runs of the same object continue from the restarted chain or, without the file, start from the declarations again.',
 ['histories','configurations','inputs'],'every saved run (any method, adapted or not, fixed parameters in any position, light or full results file) and every compatible new set-up',
 'One test mocks the loader with a fixed dictionary.',
 [M,SE+'ModelParameters.py','pymcmcstat/structures/ResultsStructure.py','pymcmcstat/ParallelMCMC.py'],
 [('MCMC.__setup_simulator',M),('_results_to_params',SE+'ModelParameters.py')],None,['first model call','first proposal','results'])
p('C11','Log files always hold a whole-segment prefix of the chains',
 'With logging on, after every savesize steps the log files (binary and/or text) of chain, sum of squares and error variance are extended by the next rows in order, never with gaps, repetitions or altered values, and the covariance log by the current proposal covariance; when the run ends they hold every row exactly once. If the run is interrupted at any point, each file holds exactly a prefix of the chain made of complete segments, at most savesize rows behind plus the step in progress, and the log index lists the segments written.',
 ['crash_points','histories','configurations'],'every nsimu, savesize, format combination, continued run, and every step at which the model or the process fails',
 'Tests call the save routine once on random matrices; no test interrupts a run or compares files with chains.',
 [M,CH+'ChainProcessing.py'],[('MCMC.__execute_simulator',M),('MCMC.__save_to_log_file',M),('_save_to_bin_file',CH+'ChainProcessing.py'),('_save_to_txt_file',CH+'ChainProcessing.py')],[('savecount,lastbin','rows since last save, first unsaved row',M)],['files in savedir'])
p('C12','Reading log files back reproduces the chains exactly',
 'Loading a log directory returns chain, sum-of-squares, error variance and covariance arrays equal, element for element and in row order, to what was sampled, always two-dimensional, for both formats and any number and size of segments; a missing file yields an empty list with a warning and never affects the other arrays. The results dictionary loaded for a run is the one of the requested file, with chains from the log files if it contains none.',
 ['inputs','configurations','histories'],'every number of rows, columns and segments (including segment starts of different magnitude), format, file name and results file layout',
 'Tests read one small array back; segment order beyond one data set, one-column files and missing files are not covered.',
 [CH+'ChainProcessing.py'],[('read_in_bin_file',CH+'ChainProcessing.py'),('read_in_txt_file',CH+'ChainProcessing.py'),('load_serial_simulation_results',CH+'ChainProcessing.py')],None,['return values of loaders'])
p('C13','Saved results files reproduce the results dictionary',
 'With save_to_json, the file named by results_filename in savedir (a default name otherwise) loads to the same keys and numerically identical values as the results dictionary of the run; if the chains are also logged to files (or a light save is requested) exactly the chain arrays are left out and nothing else. Saving never alters the results in memory.',
 ['inputs','configurations'],'every configuration of method, logging and light saving, including infinite limits and NaN values',
 'Tests save toy dictionaries and compare one key.',
 ['pymcmcstat/structures/ResultsStructure.py','pymcmcstat/utilities/NumpyEncoder.py',SE+'SimulationOptions.py',M],
 [('export_simulation_results_to_json_file','pymcmcstat/structures/ResultsStructure.py'),('export_lightly','pymcmcstat/structures/ResultsStructure.py'),('check_lightly_save',SE+'SimulationOptions.py')],None,['json files','results'])
p('C14','Custom samplers run once per step and feed the next evaluations',
 'Each custom sampler is set up once per run before sampling, and updated exactly once after each step, in the order given, with the acceptance flag, step number and current set (parameters, sum of squares, error variance) of that step. The list of their latest outputs, and nothing older, is passed to every sum-of-squares evaluation of the next step, including all delayed rejection tries; custom chains asked to be saved are logged with the same row segments as the chain.',
 ['histories','configurations'],'every number of custom samplers, every accept/reject/delayed rejection history, every savesize',
 'One test appends a custom sampler and checks the run finishes.',
 [M,PR+'SumOfSquares.py',S+'Metropolis.py',S+'DelayedRejection.py'],[('MCMC.__execute_simulator',M),('evaluate_sos_function',PR+'SumOfSquares.py')],[('custom_sampler_output','latest outputs',M)],['custom sampler callbacks','sos_function custom argument'])
p('C15','A seed determines the chain; output options do not influence it',
 'Two runs with the same seed and settings give identical chains. Verbosity, progress bar, print interval, display calls, logging, saving to file, file names and the presence of passive custom samplers never change the sampled chains.',
 ['configurations','histories'],'every combination of seed, method and output options',
 'Tests never compare two runs.',
 [M,'pymcmcstat/utilities/progressbar.py','pymcmcstat/utilities/general.py'],[('np.random.seed in MCMC.__init__',M)],None,['results chain/sschain/s2chain'])
p('C16','Runs do not change user inputs or leak into other objects',
 'A simulation, post-processing call or parallel set-up never modifies arrays, lists or dictionaries passed in by the user (data, sigma2, S20, N0, qcov, drscale, initial values, chains, results), and two simulation objects, or two runs built from the same arrays, do not influence each other.',
 ['histories','configurations','inputs'],'every sequence of defining, running, continuing, propagating intervals, computing statistics and setting up parallel chains with shared inputs',
 'Tests use fresh inputs for each call and never look at them afterwards.',
 [SE+'ModelSettings.py',PR+'ErrorVarianceEstimator.py','pymcmcstat/propagation.py','pymcmcstat/plotting/PredictionIntervals.py','pymcmcstat/ParallelMCMC.py',PR+'CovarianceProcedures.py'],
 [('ModelSettings._check_dependent_model_settings_wrt_nsos',SE+'ModelSettings.py'),('copy.deepcopy in setup_parallel_simulation','pymcmcstat/ParallelMCMC.py')],None,['user arrays before and after'])
p('C17','Parallel chains: each starts and ends as its own independent simulation',
 'A parallel simulation has one chain per requested chain or row of initial values; chain i starts at row i of the initial values (drawn uniformly and independently inside the limits if not given; values outside the limits are refused), uses its own directory chain_i, result file and random number stream, and otherwise the settings of the template. After the run, for every number of processes and every order in which they start and finish, result i belongs to chain i, and no two chains share random numbers; if a chain is refused or fails, the simulation fails instead of waiting or returning results.',
 ['schedules','configurations','inputs'],'every number of chains and cores, every scheduling of the worker processes, every set of initial values',
 'Tests mock the pool or run one chain; no test forces schedules or compares chains.',
 ['pymcmcstat/ParallelMCMC.py'],[('setup_parallel_simulation','pymcmcstat/ParallelMCMC.py'),('run_parallel_simulation','pymcmcstat/ParallelMCMC.py'),('run_serial_simulation','pymcmcstat/ParallelMCMC.py')],None,['parmc[i].simulation_results','chain directories'])
p('C18','Loaded and combined parallel results keep chain identity and order',
 'Loading a parallel results directory yields one results dictionary per chain directory in order of chain number, each with its own chains, whether these are in the results file or in log files, and ignores other entries. Combining chains, or listing them, drops from each chain exactly the first floor(nsimu*burnin/100) rows and keeps the remaining rows in order, labelled with their chain.',
 ['inputs','configurations'],'every number of chains (including more than ten), format, burn-in percentage and directory content',
 'Tests use three chains and fixed sizes.',
 [CH+'ChainProcessing.py','pymcmcstat/ParallelMCMC.py'],[('check_parallel_directory_contents',CH+'ChainProcessing.py'),('load_parallel_simulation_results',CH+'ChainProcessing.py'),('generate_combined_chain_with_index',CH+'ChainProcessing.py'),('generate_chain_list',CH+'ChainProcessing.py')],None,['return values'])
p('C19','Simulation options resolve to the documented effective settings',
 'The method determines adaptation interval, number of tries and scale unless given explicitly (mh and dr never adapt); savesize outside 1..nsimu means nsimu, lastadapt below 1 means nsimu, the print interval defaults to the adaptation interval clipped to 100..1000, specifying N0 turns the error variance update on, and a light results file is used exactly when chains are logged elsewhere or it is requested without full saving. All other options are kept as given.',
 ['inputs','configurations'],'every combination of option values',
 'Tests check each rule once in isolation.',
 [SE+'SimulationOptions.py'],[('define_simulation_options',SE+'SimulationOptions.py'),('_check_dependent_simulation_options',SE+'SimulationOptions.py'),('check_lightly_save',SE+'SimulationOptions.py')],None,['simulation_options attributes','behaviour of the run'])
p('C20','Parameter declarations are honoured, inconsistent ones refused',
 'A run is refused if a sampled parameter has a minimum above its maximum or an initial value outside its limits, and only then; declared names (default $p_{i}$), initial values (default 1), limits, prior mean (NaN: the initial value) and prior standard deviation (zero or negative: infinite) are the ones used for sampling and reported in the results. The prior term is sum_j ((mu_j - theta_j)/sigma_j)^2 over the sampled parameters, or the user prior function called with their values, means and standard deviations.',
 ['inputs','configurations'],'every list of declarations with any mixture of fixed, non-adapted, bounded and prior-carrying parameters',
 'Tests check single declarations; not mixtures, boundary values or order dependence.',
 [SE+'ModelParameters.py',PR+'PriorFunction.py',M],[('_openparameterstructure',SE+'ModelParameters.py'),('_check_parameter_limits',SE+'ModelParameters.py'),('_check_initial_values_wrt_parameter_limits',SE+'ModelParameters.py'),('PriorFunction.evaluate_prior',PR+'PriorFunction.py')],None,['exit behaviour','results limits, prior, names'])
p('C21','Error model settings and observation counts resolve consistently',
 'N is the number of rows of each data set (or the count given with it); a user-defined N must agree with the data or the run is refused, and a scalar sum of squares uses the total. sigma2 defaults to S20 if S20 and N0 are given, else to 1; S20 defaults to the initial sigma2; N0 defaults to 1 if sigma2 was given and 0 otherwise; each is expanded to one value per sum-of-squares component, and any other length is refused.',
 ['inputs','configurations'],'every combination of given or omitted N, N0, S20, sigma2 (scalars, lists, arrays), number of data sets and number of sum-of-squares components',
 'Tests cover individual combinations only.',
 [SE+'ModelSettings.py',SE+'DataStructure.py'],[('_check_dependent_model_settings',SE+'ModelSettings.py'),('_check_dependent_model_settings_wrt_nsos',SE+'ModelSettings.py'),('add_data_set',SE+'DataStructure.py')],None,['model_settings attributes','results model_settings'])
p('C22','The default sum of squares is the weighted residual sum per data set',
 'With a model function instead of a sum-of-squares function, component i is the weight of data set i times the sum of squared differences between its y values and the model evaluated at its x values and the full parameter vector; all data sets are used, in order, each with its own x, y and weight. A sum-of-squares function takes precedence over a model function, and having neither is refused. A scalar return value counts as one component.',
 ['inputs','configurations'],'every number, size and shape of data sets, weights, models and parameters',
 'Tests evaluate one data set.',
 [PR+'SumOfSquares.py',SE+'DataStructure.py'],[('mcmc_sos_function',PR+'SumOfSquares.py'),('evaluate_sos_function',PR+'SumOfSquares.py'),('add_data_set',SE+'DataStructure.py')],None,['results sschain','model function calls'])
p('C23','Credible and prediction samples come from the chain rows they claim',
 'Interval generation evaluates the model at the full parameter vector (fixed entries from the results, sampled entries from one chain row after burn-in), using every row once if at least as many samples as rows are requested and otherwise the requested number of randomly selected rows from the whole chain; prediction samples add observation noise with the error variance of the same row and matching column (additive, square-root or log scale). Reported quantiles are the linearly interpolated order statistics of those samples, plotted intervals are the quantiles of their labels around the median response, and results and chains are left unchanged.',
 ['inputs','configurations'],'every chain, sample size, burn-in, number of data sets, outputs per set, error variance layout and random stream',
 'Tests check keys and shapes; not which rows, variances or quantiles are used.',
 ['pymcmcstat/propagation.py','pymcmcstat/plotting/PredictionIntervals.py','pymcmcstat/plotting/utilities.py'],[('calculate_intervals','pymcmcstat/propagation.py'),('generate_prediction_intervals','pymcmcstat/plotting/PredictionIntervals.py'),('generate_quantiles','pymcmcstat/propagation.py'),('empirical_quantiles','pymcmcstat/plotting/utilities.py')],None,['model calls','np.random draws','returned intervals'])
p('C24','Chain statistics equal their definitions',
 'For every chain the reported mean and standard deviation (population), batch-means standard deviation (batches of max(10, floor(n/20)) rows) and Monte Carlo error are those of its columns, the Geweke diagnostic compares the means of the first and last part of the chain using spectral estimates of their variance, the integrated autocorrelation time is that of each column, and the Gelman-Rubin diagnostic of several chains is computed per parameter from the between-chain variance of the chain means and the mean within-chain variance (R, B, W, V, effective sample size capped at the total). Statistics are reported per parameter under its own name and the acceptance summary agrees with the results.',
 ['inputs','configurations'],'every chain length, number of parameters, number of chains and values',
 'Tests check types and a few fixed outputs.',
 [CH+'ChainStatistics.py'],[('chainstats',CH+'ChainStatistics.py'),('batch_mean_standard_deviation',CH+'ChainStatistics.py'),('gelman_rubin',CH+'ChainStatistics.py'),('calculate_psrf',CH+'ChainStatistics.py')],None,['return values','printed summary'])
p('C25','Diagnostic plots show the chain they are given',
 'The chain, pairwise, histogram, density and metrics plots have one panel per parameter (or pair of parameters) in order, labelled with the name of the parameter (default names where none are given), showing the values of exactly that parameter: trace and pair plots at evenly spaced rows from the first (the requested step, thinned to floor(n/maxpoints) only for chains longer than maxpoints), histograms with equal bins over the range whose bars count the values, densities as the Gaussian kernel estimate with the normal reference bandwidth on an even grid over the range. Interquartile range, bandwidth, grids, Gaussian density and covariance contours follow their definitions, and the plotted chain and names are left unchanged.',
 ['inputs','configurations'],'every chain length, number of parameters, names, step and maximum number of points',
 'Tests check that figures are created and the types and sizes of return values.',
 ['pymcmcstat/plotting/MCMCPlotting.py','pymcmcstat/plotting/utilities.py'],[('plot_chain_panel','pymcmcstat/plotting/MCMCPlotting.py'),('plot_pairwise_correlation_panel','pymcmcstat/plotting/MCMCPlotting.py'),('setup_subsample','pymcmcstat/plotting/utilities.py'),('make_x_grid','pymcmcstat/plotting/utilities.py'),('iqrange','pymcmcstat/plotting/utilities.py')],None,['figures returned','return values'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
