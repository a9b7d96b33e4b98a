import os, glob
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
def cfg(name, setup, rx, tx, push, env, bug='no'):
    open(SPEC + '/ModemImpl_%s.cfg' % name,'w').write('''SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Setup <- Setup_%s
  RxT = "%s"
  TxT = "%s"
  NPush = %d
  Env = {%s}
  Bug = "%s"
  defaultInitValue = 0
INVARIANTS Conforms NoUse Settled Stops
'''%(setup,rx,tx,push,', '.join('"%s"'%e for e in env),bug))
for f in glob.glob(SPEC + '/ModemImpl_*.cfg'): os.unlink(f)
cfg('rr_close','rr','sdr','none',1,['close'])
cfg('rr_bye_eof','rr','sdr','none',1,['bye','eof'])
cfg('rr_stop','rr','sdr','none',1,['stop'])
cfg('rr_close_eof','rr','sdr','none',1,['close','eof'])
cfg('rr_close_stop','rr','sdr','none',0,['close','stop'])
cfg('rr_eof_stop','rr','sdr','none',1,['eof','stop'])
cfg('rs_close','rs','sdr','none',0,['close'])
cfg('rr_eof2','rr','sdr','none',2,['eof'])
cfg('tt_close','tt','sdr','file',0,['close','bye'])
cfg('tt_stop','tt','sdr','pluto',0,['close','stop'])
cfg('pp_close','rr','pluto','none',1,['close'])
cfg('pp_stop','rr','pluto','none',1,['close','stop'])
cfg('tr_pluto','tr','pluto','pluto',0,['close','stop'])
cfg('ttt','ttt','sdr','file',0,['close','bye'])
cfg('pbr','pbr','sdr','none',0,['close','stop'])

cfg('bug_no_pill','rr','sdr','none',0,['eof'],'no_pill')
cfg('bug_no_wait','rr','sdr','none',1,[],'no_wait')
cfg('bug_no_lock','rr','sdr','none',0,['close'],'no_lock')
cfg('bug_late_forget','rr','sdr','none',0,['close'],'late_forget')
cfg('bug_close_first','tt','sdr','file',0,['close','bye'],'close_first')
cfg('bug_close_first_rx','rr','pluto','none',0,['bye'],'close_first')
cfg('bug_pill_first','rr','sdr','none',1,['eof'],'pill_first')
cfg('bug_no_join','rr','sdr','none',1,['bye'],'no_join')

