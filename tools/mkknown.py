import subprocess
m={'061efe0':'P24','fa4554f':'P19','47b633f':'P10','b0f6c93':'P05','828c4f3':'P02','b7f3d6d':'P01','d37de46':'P23','9da0337':'P23','7236026':'P23','dede283':'P23','9f12b23':'P18','72f805c':'P18','f2c5858':'P18','e32f055':'P18','beede67':'P16','db0c451':'P16','1eb38d1':'P16','0911a47':'P16','abfb3ac':'P16','a28bc57':'P16','63cdc96':'P09','c85414d':'P14','b682813':'P14','9dabebf':'P14','5bcebe6':'P14','4bd394b':'P14','906e90e':'P14','9206f94':'P14','eb851ea':'P14','10b5aae':'P11','7e25ff4':'P11','be49318':'P11','2f781fc':'P11','f912dd8':'P11','6110cfd':'P11','5ea6433':'P11','e7452d0':'P12','bb8579d':'P05','20458de':'P10','40b062b':'P02','ae4c0ba':'P05','eab19d9':'P15','7179ec1':'P05','53f1758':'P06','63571dc':'P02','9fa4bd9':'P03','3fc1ae3':'P03','d8b7fb1':'P01','3abb1dd':'P01','6615bf8':'P05','48831f7':'P05','c2c5e2a':'P02','e5a378c':'P02','e20543c':'P02','666e081':'P05','f6c544a':'P03','f72e474':'P03','4355642':'P03','79b202e':'P07','e97e1a5':'P07','d3968b8':'P07','a0b37bd':'P07','5322499':'P07','114db26':'P10','eaa9517':'P10','d94c199':'P10','c237e1a':'P10','2602ac5':'P20','067c89f':'P15','cfe9d1b':'P13','6ac9fcf':'P20','fa6338d':'P20','7c32877':'P20','7c1a9da':'P20','29dd159':'P20','f28a88f':'P20','d312b58':'P20','93a4e14':'P20','ce6d4f0':'P20','4f03438':'P13'}
log=subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.strip().split('\n')
out=['# Genuine defects of envelope-project/laik.','# "known:" entries are replayed and reported as KNOWN-FINDING; "fixed:" entries suppress nothing.',
'known: property=P04 replay=known/p04-reduction-without-reservation.replay class=assert match="tc->fromList" laik_calc_actions without reservations for a transition with a reduction aborts in laik_aseq_flattenPacking with the MPI backend and more than one process']
for l in reversed(log):
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    out.append('fixed: property=%s %s %s'%(m.get(h,'P??'),h,s[5:]))
open('/verif/known-findings','w').write('\n'.join(out)+'\n')
