"""Learning rate schedules."""
ASSUMPTIONS = ['Rates are compared to 1/10000; the decay is longer than zero steps.']


def run(chk):
  chk.model('Schedule', f'''SPECIFICATION Spec
CONSTANTS MaxWarm=3 MaxDecay={2 if chk.quick else 3} MaxCool=3 MaxPeak={2 if chk.quick else 3}
INVARIANTS NonNegative Ends PeakReached
PROPERTY Shape
CHECK_DEADLOCK FALSE
''')
  cases = chk.generate('ScheduleGen', 'MaxW=5 MaxD=9' if chk.quick else 'MaxW=9 MaxD=20')
  chk.judge('ScheduleTrace', chk.execute('schedules.py', cases=cases, shards=6))
