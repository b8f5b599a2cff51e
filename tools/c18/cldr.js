const fs=require('fs');
const langs=fs.readFileSync(__dirname+'/langs.txt','utf8').trim().split('\n');
const out={};
for(const l of langs){
  let sup=[];try{sup=Intl.DateTimeFormat.supportedLocalesOf([l]);}catch(e){}
  if(!sup.length)continue;
  const o={m:[],s:[],b:[],l:[],w:[],v:[],u:[],r:{}};
  for(let m=0;m<12;m++){
    const d=new Date(Date.UTC(2012,m,15));
    let p=new Intl.DateTimeFormat(l+'-u-ca-gregory-nu-latn',{day:'numeric',month:'long',year:'numeric',timeZone:'UTC'}).formatToParts(d).find(x=>x.type=='month');
    o.m.push(p?p.value:'');
    p=new Intl.DateTimeFormat(l+'-u-ca-gregory-nu-latn',{month:'long',timeZone:'UTC'}).format(d);
    o.s.push(p);
    p=new Intl.DateTimeFormat(l+'-u-ca-gregory-nu-latn',{day:'numeric',month:'short',year:'numeric',timeZone:'UTC'}).formatToParts(d).find(x=>x.type=='month');
    o.b.push(p?p.value:'');
    o.l.push(new Intl.DateTimeFormat(l+'-u-ca-gregory-nu-latn',{dateStyle:'long',timeZone:'UTC'}).format(d));
  }
  for(let i=0;i<7;i++){ o.w.push(new Intl.DateTimeFormat(l+'-u-ca-gregory-nu-latn',{weekday:'long',timeZone:'UTC'}).format(new Date(Date.UTC(2021,10,1+i))));
    o.v.push(new Intl.DateTimeFormat(l+'-u-ca-gregory-nu-latn',{weekday:'short',timeZone:'UTC'}).format(new Date(Date.UTC(2021,10,1+i)))); }
  for(const u of ['second','minute','hour','day','week','month','year']){
    o.r[u]=[1,2,5,10].map(n=>[new Intl.RelativeTimeFormat(l+'-u-nu-latn').format(-n,u),new Intl.RelativeTimeFormat(l+'-u-nu-latn').format(n,u)]);
  }
  for(const u of ['second','minute','hour','day','week','month','year']) for(const n of [1,5]) try{
    o.u.push(...new Intl.NumberFormat(l,{style:'unit',unit:u,unitDisplay:'long'}).formatToParts(n).filter(x=>x.type=='unit').map(x=>x.value),...new Intl.NumberFormat(l,{style:'unit',unit:u,unitDisplay:'short'}).formatToParts(n).filter(x=>x.type=='unit').map(x=>x.value));
  }catch(e){}
  out[l]=o;
}
fs.writeFileSync(process.argv[2],JSON.stringify(out));
console.log(Object.keys(out).length, langs.filter(l=>!out[l]).join(' '));
console.log(process.versions.cldr, JSON.stringify(out.fr).slice(0,600));
