import sys,ast,json,subprocess
sys.path[:0]=['/verif']
out=[e for e in json.load(open('/verif/known-findings.json')) if e['status']=='finding']
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s'],capture_output=True,text=True).stdout.strip().split('\n')
PR={'complex eigenvalues of separating':'P16','comparison of k points of the tables':'P05','with their keyword':'P05','fewer plane waves than expected':'P18','more plane waves below the cutoff':'P18','do not identify irreps in a cell':'P18','incomplete sets of op':'P18','several symmetries in the command':'P16','symmetries asked for':'P16','compare translations with':'P03','make the spinor sign':'P19','order of the outermost':'P06','phase of nonsymmorphic':'P11','print the last level':'P14','skip k points of a WFK':'P08','one atom per cell':'P07','chosen spin channel':'P07','prefix.sym':'P15','printed vectors and atomic':'P10','units of length':'P07','-trans_thresh':'P16','names of k points in irrep-output':'P14','several symmetries without':'P11','Zak phases and Wannier':'P12','Zak phases of all':'P12','orthonormal states':'P11','without grouping Kramers':'P11','separate subspaces of':'P11','Kramers partner':'P11','number the atom types':'P07','units and order of the blocks':'P07','mp_grid without':'P07','correct_Ecut0':'P16','do not modify the list':'P08','corners of the grid':'P06','.eig files':'P07','scaling factor':'P07','comments at the end':'P07','different bands per k':'P07','tables of another':'P18','far from Gamma':'P06','compare coordinates of k':'P02','parity of inversion whose':'P13','odd states in the subspaces':'P11','wave without image':'P18','images of plane waves when':'P01','separation by the identity':'P11','k points given with few':'P02','complex in the reference cell only':'P14','symmetry that doesn':'P18','structure of Quantum Espresso':'P07','cells that are not reduced':'P06'}
for l in log:
    h,m=l.split(' ',1)
    if not m.startswith('fix:'): continue
    pr=[v for k,v in PR.items() if k in m]
    assert len(pr)==1,(m,pr)
    out.append(dict(property=pr[0],status='fixed',commit=h,what=f"fixed: property={pr[0]} {h} {m[5:]}"))
json.dump(out,open('/verif/known-findings.json','w'),indent=1)
print(len(out))
