# shows where got/want of a replay first differ
import json,sys
d=json.load(open(sys.argv[1])); m=d['msg']; i=m.find(' want '); g=m.find('got '); a=m[g+4:i]; b=m[i+6:]
k=0
while k<min(len(a),len(b)) and a[k]==b[k]: k+=1
print(d['case'],k,len(a),len(b)); print('GOT ',a[max(0,k-150):k+200]); print('WANT',b[max(0,k-150):k+200]); print(d['trace'][:int(sys.argv[2]) if len(sys.argv)>2 else 0])
