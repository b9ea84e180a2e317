"""
What decides each property: models checked exhaustively ('models', and 'more'
in the thorough tier) and sources of traces. Pairs are (quick, thorough).
"""
ASYNC = [dict(module='GenAsync', cfg='GenAsync.cfg', num=(40, 400), depth=40),
         dict(module='GenAsync', cfg='GenAsync7.cfg', num=(60, 800), depth=40)]
FILL = [dict(module='GenFill', cfg='GenFill.cfg', num=(60, 800), depth=60),
        dict(module='GenFill', cfg='GenFill8.cfg', num=(60, 800), depth=80)]
REPORT = [dict(module='ReportModel', cfg='SimReport.cfg', num=(400, 4000), depth=24),
          dict(module='ReportModel', cfg='MCReport.cfg', limit=(2000, 5000))]
ROSTER = [dict(module='RosterModel', cfg='SimRoster.cfg', num=(300, 3000), depth=20),
          dict(module='RosterModel', cfg='MCRoster.cfg', limit=(3000, 14641))]

def src(driver, family, n, **kw):
    return dict(driver=driver, family=family, n=n, **kw)

REACTOR = "the code runs under a deterministic reactor whose clock and completion order the driver controls"
INTS = "parameters and fitness are integers exact in float32"

PROPS = {
    'C01': dict(
        models=[('Async', 'MCAsync.cfg')],
        sources=[src('run', 'order', (160, 3000), gen=ASYNC), src('run', 'recipe', (40, 400))],
        assumptions=[REACTOR, INTS]),
    'C02': dict(
        models=[('RecipeModel', 'MCRecipe.cfg')],
        sources=[src('run', 'recipe', (160, 2400), gen=[dict(module='RecipeModel', cfg='MCRecipe.cfg', limit=(120, 1500))]), src('run', 'order', (60, 1000), gen=ASYNC[:1])],
        assumptions=[REACTOR, INTS]),
    'C03': dict(
        models=[('Async', 'MCAsync.cfg')],
        sources=[src('run', 'replace', (300, 5000)), src('run', 'order', (60, 800))],
        assumptions=[REACTOR, INTS]),
    'C04': dict(
        models=[('Fill', 'MCFill.cfg')],
        sources=[src('run', 'bounds', (200, 3000)), src('setup', 'conform', (200, 3000))],
        assumptions=[REACTOR, "constraints are linear inequalities"]),
    'C05': dict(
        models=[('Fill', 'MCFill.cfg')],
        sources=[src('setup', 'fill', (250, 4000), gen=FILL), src('setup', 'conform', (60, 1000)),
                 src('setup', 'abort', (60, 600))],
        assumptions=[REACTOR, "some evaluation eventually gives a finite fitness"]),
    'C08': dict(
        models=[('Async', 'MCAsync.cfg'), ('Fill', 'MCFill.cfg')],
        sources=[src('run', 'abort', (300, 5000)), src('setup', 'abort', (200, 3000)),
                 src('setup', 'fill', (0, 0), gen=FILL[:1])],
        assumptions=[REACTOR, INTS]),
    'C09': dict(
        models=[('Async', 'MCAsync.cfg'), ('Fill', 'MCFill.cfg')],
        sources=[src('run', 'fatal', (300, 5000)), src('setup', 'fatal', (250, 3000)),
                 src('setup', 'fill', (0, 0), gen=FILL[:1])],
        assumptions=[REACTOR, INTS]),
    'C06': dict(
        models=[('Async', 'MCAsync.cfg')],
        sources=[src('run', 'finish', (300, 5000)), src('run', 'order', (60, 800), gen=ASYNC)],
        assumptions=[REACTOR, INTS]),
    'C26': dict(
        models=[('Async', 'MCAsync.cfg')],
        sources=[src('run', 'limit', (300, 5000))],
        assumptions=[REACTOR, INTS]),
    'C07': dict(
        models=[('StopModel', 'MCStop.cfg')],
        sources=[src('stop', 'runs', (400, 5000), gen=[
            dict(module='StopModel', cfg='SimStop.cfg', num=(200, 1500), depth=40),
            dict(module='StopModel', cfg='MCStop.cfg', limit=(400, 4290))])],
        assumptions=[REACTOR, "evaluations give their results at once"]),
    'C10': dict(
        models=[('AbortModel', 'MCAbort.cfg')],
        sources=[src('abort', 'uses', (500, 5000), gen=[
            dict(module='AbortModel', cfg='SimAbort.cfg', num=(500, 4000), depth=20),
            dict(module='AbortModel', cfg='MCAbort.cfg', limit=(3000, 13878))])],
        assumptions=["handlers do not raise", "the console is a stand-in"]),
    'C11': dict(
        models=[('FModel', 'MCFModel.cfg')],
        sources=[src('fadapt', 'sequences', (400, 5000), gen=[
            dict(module='FModel', cfg='SimFModel.cfg', num=(100, 1000), depth=60),
            dict(module='FModel', cfg='MCFModel.cfg', limit=(2000, 4608))])],
        assumptions=["values are compared in millionths"]),
    'C12': dict(
        models=[('ScoreModel', 'MCScore.cfg')],
        sources=[src('score', 'sequences', (500, 6000), gen=[
            dict(module='ScoreModel', cfg='SimScore.cfg', num=(400, 4000), depth=20)])],
        assumptions=["the random numbers that could decide an inquiry are made extreme"]),
    'C13': dict(
        models=[('ClassifyModel', 'MCClassify.cfg')],
        sources=[src('classify', 'pairs', (500, 6000), gen=[
            dict(module='ClassifyModel', cfg='MCClassify.cfg')])],
        assumptions=["exactly at a threshold rounding may go either way"]),
    'C14': dict(
        models=[('ReportModel', 'MCReport.cfg')],
        sources=[src('report', 'plain', (800, 8000), gen=REPORT), src('report', 'complain', (200, 2000))],
        assumptions=[REACTOR, "individuals told apart by their values"]),
    'C15': dict(
        models=[('ReportModel', 'MCReport.cfg')],
        sources=[src('report', 'complain', (800, 8000), gen=REPORT)],
        assumptions=[REACTOR, "there is a complaint handler (otherwise a debugger is started)"]),
    'C16': dict(
        models=[('RosterModel', 'MCRoster.cfg')],
        sources=[src('roster', 'direct', (800, 10000), gen=ROSTER), src('roster', 'big', (80, 800)),
                 src('roster', 'pop', (200, 2000)), src('roster', 'saved', (80, 400))],
        assumptions=[REACTOR, INTS]),
    'C17': dict(
        models=[('RosterModel', 'MCRoster.cfg')],
        sources=[src('roster', 'pop', (800, 10000)), src('roster', 'saved', (400, 4000)),
                 src('roster', 'direct', (100, 2000), gen=ROSTER)],
        assumptions=[REACTOR, INTS, "an individual is a member at one index only"]),
    'C27': dict(
        models=[('RosterModel', 'MCRoster.cfg')],
        sources=[src('roster', 'query', (800, 10000)), src('roster', 'analysis', (600, 6000)),
                 src('roster', 'pop', (100, 1000))],
        assumptions=[REACTOR, INTS, "ratios and fractions are eighths, so that rounding decides nothing"]),
    'C19': dict(
        models=[('RankModel', 'MCRank.cfg')],
        sources=[src('rank', 'sample', (1200, 12000)), src('rank', 'draws', (200, 2000))],
        assumptions=["likelihoods are judged from 1500 draws, within six standard deviations"]),
    'C20': dict(
        models=[('RankModel', 'MCRank.cfg')],
        sources=[src('rank', 'rank', (1000, 10000), gen=[
            dict(module='RankModel', cfg='SimRank.cfg', num=(300, 3000), depth=20),
            dict(module='RankModel', cfg='MCRank.cfg', limit=(3000, 28561))])],
        assumptions=[]),
    'C21': dict(
        models=[('LocksModel', 'MCLocks.cfg')],
        sources=[src('locks', 'random', (600, 6000), gen=[
            dict(module='LocksModel', cfg='SimLocks.cfg', num=(300, 3000), depth=26),
            dict(module='LocksModel', cfg='MCLocks.cfg', limit=(3000, 30994))])],
        assumptions=["holders release what they were granted"]),
    'C22': dict(
        models=[('SpecFileModel', 'MCSpecFile.cfg')],
        sources=[src('specfile', 'random', (1500, 15000), gen=[
            dict(module='SpecFileModel', cfg='SimSpecFile.cfg', num=(400, 4000), depth=26),
            dict(module='SpecFileModel', cfg='MCSpecFile.cfg', limit=(8000, 60000))])],
        assumptions=["numbers up to 2000 in size", "strings in lower case",
                     "no entry on the path to another, no region left open"]),
    'C23': dict(
        models=[('ConstrainModel', 'MCConstrain.cfg')],
        sources=[src('constrain', 'random', (2000, 20000), gen=[
            dict(module='ConstrainModel', cfg='SimConstrain.cfg', num=(300, 3000), depth=16),
            dict(module='ConstrainModel', cfg='MCConstrain.cfg', limit=(4000, 60000))])],
        assumptions=["logarithms are whole numbers", "relations in eighths, so that rounding decides nothing"]),
    'C24': dict(
        models=[('LogModel', 'MCLog.cfg')],
        sources=[src('log', 'random', (2000, 20000), gen=[
            dict(module='LogModel', cfg='SimLog.cfg', num=(500, 5000), depth=26),
            dict(module='LogModel', cfg='MCLog.cfg', limit=(8000, 78000))])],
        assumptions=["after a switch of handles a newline before the next line is as good as none"]),
    'C25': dict(
        models=[('TimerModel', 'MCTimer.cfg')],
        sources=[src('timer', 'random', (2000, 20000), gen=[
            dict(module='TimerModel', cfg='SimTimer.cfg', num=(500, 5000), depth=26),
            dict(module='TimerModel', cfg='MCTimer.cfg', limit=(8000, 160000))])],
        assumptions=["the clock read by the timer is the driver's own"]),
    'C28': dict(
        models=[('ExtractModel', 'MCExtract.cfg')],
        sources=[src('extract', 'random', (600, 4000), gen=[
            dict(module='ExtractModel', cfg='SimExtract.cfg', num=(100, 1000), depth=16),
            dict(module='ExtractModel', cfg='MCExtract.cfg', limit=(1200, 19049))])],
        assumptions=["run as an unprivileged user on a scratch copy of the package",
                     "examples are packaged files named in lower case with .py, .c, .txt or .specs"]),
    'C29': dict(
        models=[('IndivModel', 'MCIndiv.cfg')],
        sources=[src('indiv', 'random', (2000, 20000), gen=[
            dict(module='IndivModel', cfg='SimIndiv.cfg', num=(300, 3000), depth=30),
            dict(module='IndivModel', cfg='MCIndiv.cfg', limit=(5000, 69248))])],
        assumptions=["values and fitness in 64ths, so that arithmetic is exact",
                     "a copy need not keep that its original's evaluation was fatal"]),
    'C18': dict(
        models=[('StoreModel', 'MCStore.cfg')],
        sources=[src('store', 'random', (300, 3000), gen=[
            dict(module='StoreModel', cfg='SimStore.cfg', num=(60, 600), depth=20),
            dict(module='StoreModel', cfg='MCStore.cfg', limit=(400, 2227))])],
        assumptions=[REACTOR, "fitness is a whole number", "constraints can be pickled"]),
    'C30': dict(
        models=[('ThinModel', 'MCThin.cfg')], more=[('ThinModel', 'MCThinWide.cfg')],
        sources=[src('thin', 'thin', (1200, 12000), gen=[
            dict(module='ThinModel', cfg='SimThin.cfg', num=(400, 4000), depth=20)]),
                 src('thin', 'twins', (120, 1200))],
        assumptions=[REACTOR, "for more than seven records of non-members, just that of two the same one goes",
                     "values and fitness are small whole numbers",
                     "all pairs are examined, as with up to 141 records of non-members",
                     "distances within two percent of the least count as the least"]),
    'C31': dict(
        models=[('LatinModel', 'MCLatin.cfg'), ('LatinModel', 'MCLatin4.cfg')],
        sources=[src('latin', 'latin', (300, 3000), gen=FILL)],
        assumptions=[REACTOR, "parameters are sampled by the hypercube, not merely uniformly",
                     "which slice a candidate is in is computed exactly from its values and the bounds"]),
    'C32': dict(
        models=[('ReadableModel', 'MCReadable.cfg')],
        sources=[src('readable', 'random', (600, 6000), gen=[
            dict(module='ReadableModel', cfg='MCReadable.cfg', limit=(2500, 5476))])],
        assumptions=["values and fitness are whole numbers of up to four digits",
                     "a value exactly 5% from a bound may or may not be marked"]),
    'C33': dict(
        models=[('SummaryModel', 'MCSummary.cfg')],
        sources=[src('summary', 'random', (300, 3000), gen=[
            dict(module='SummaryModel', cfg='MCSummary.cfg', limit=(2500, 13710))])],
        assumptions=["the log is written with what ade itself prints, and other lines in between",
                     "no two entries have the same fitness, none is exactly twice the best",
                     "no value differs from another by exactly 1%"]),
    'C34': dict(
        models=[('PlotsModel', 'MCPlots.cfg')],
        sources=[src('plots', 'plots', (240, 2400), parts=8, gen=[
            dict(module='PlotsModel', cfg='SimPlots.cfg', num=(60, 1500), depth=7)])],
        assumptions=["figures are looked at before they are drawn; drawing and layout are mostly left out",
                     "options that yampex has all plotters share are reset before each call"]),
    'C35': dict(
        models=[('PlotsModel', 'MCPlots.cfg')],
        sources=[src('plots', 'plots', (240, 2400), parts=8, salt=5, gen=[
            dict(module='PlotsModel', cfg='SimPlots.cfg', num=(120, 1500), depth=7)])],
        assumptions=["up to six records of values from 0 to 4, so that TLC can compare correlations exactly",
                     "no parameter has the same value in all records",
                     "fitted lines are judged where the fitness is one, three or seven times the best"]),
    'C36': dict(
        models=[('OptionsModel', 'MCOptions.cfg')],
        sources=[src('options', 'random', (3000, 30000), gen=[
            dict(module='OptionsModel', cfg='MCOptions.cfg', limit=(6000, 14129))])],
        assumptions=["arguments that are no options are next to each other on the command line"]),
    'C38': dict(
        models=[('SettingsModel', 'MCSettings.cfg')],
        sources=[src('settings', 'random', (1500, 15000), gen=[
            dict(module='SettingsModel', cfg='MCSettings.cfg', limit=(2500, 5181))])],
        assumptions=[REACTOR, "no setting is given as None for which a subclass has one"]),
    'C39': dict(
        models=[('Async', 'MCAsync.cfg'), ('Fill', 'MCFill.cfg')],
        sources=[src('run', 'parallel', (150, 2000), gen=ASYNC), src('setup', 'fill', (150, 2000), gen=FILL[:1]),
                 src('run', 'finish', (60, 600))],
        assumptions=[REACTOR, INTS]),
    'C40': dict(
        models=[('ViewerModel', 'MCViewer.cfg')],
        sources=[src('viewer', 'random', (400, 4000), gen=[
            dict(module='ViewerModel', cfg='SimViewer.cfg', num=(300, 3000), depth=20)])],
        assumptions=[REACTOR, "the image is not deleted or replaced while it is watched",
                     "viewers are started in name only: each is a process of the driver's that sleeps",
                     "a process recorded has ended or is running, its number is not that of another one"]),
}
