import subprocess
m={1:['C22'],2:['C15'],3:['C21','C07','C15','C27'],4:['C21'],5:['C10'],6:['C14','C06'],7:['C14'],8:['C12'],9:['C02','C04'],10:['C02'],11:['C15'],12:['C15'],13:['C15'],14:['C16'],15:['C26'],16:['C07','C08'],17:['C17'],18:['C28'],19:['C18'],20:['C18','C20'],21:['C18'],22:['C18'],23:['C18'],24:['C18'],25:['C19'],26:['C20'],27:['C02'],28:['C16'],29:['C11'],30:['C07'],31:['C27'],32:['C14'],33:['C20','C18'],34:['C20'],35:['C21','C17'],36:['C26'],37:['C32'],38:['C33'],39:['C34'],40:['C34','C07','C08'],41:['C09'],42:['C18'],43:['C08'],44:['C06']}
subj={s.split(' ',1)[1]:s.split(' ',1)[0] for s in subprocess.check_output(['git','-C','/repo','log','--format=%h %s','--reverse'],text=True).splitlines()}
# order of the list in the summary -> subject start
order=['keep tendency diagnostics of one','allow tendencies_in_diagnostics on time','treat offset units','define degrees_north','leave quantities without tendencies','do not scale the results','pass quantities which are not inputs','combine dims with a wildcard','restore outputs returned under any','do not drop aliased outputs','report tendencies of Stepper outputs','label tendency diagnostics of a Stepper','report tendencies of Steppers which define','leave the tracer registry','count a prepended tracer','convert remembered tendencies','list constants when','refuse unknown calendars','allow NetCDFMonitor.write','store quantities without dimensions','write states to NetCDF files with the values','do not let aliases','refuse states which are incompatible','store times in NetCDF','keep a complete restart','load restart files','refuse outputs with a wildcard','flatten tracers','add tendencies of different','forget the tendencies','keep the values of constant','pass the timestep','store quantities named like','unpack the values','report malformed unit','initialize arrays along','str() of a TendencyStepper','copying or unpickling a wrapper','pass on TypeErrors','let a failed first step','let SSPRungeKutta take steps','NetCDFMonitor could not append','Leapfrog failed on integer','component calls altered']
out=["# known: property=<id> digest=<case digest> <text>   a recorded, unrepaired defect (none at present)",
"# fixed: property=<id> <commit> <what failed>           a repaired defect; suppresses nothing",""]
for i,o in enumerate(order,1):
    hit=[(s,h) for s,h in subj.items() if s.startswith('fix: '+o)]
    assert len(hit)==1,(o,hit)
    for p in m[i]: out.append('fixed: property=%s %s (repair: %s)'%(p,hit[0][1],hit[0][0][5:]))
assert len(order)==len(subj)-1
open('/verif/KNOWN_FINDINGS.txt','w').write('\n'.join(out)+'\n')
