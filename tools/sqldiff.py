"""Differential test of engine/symsql.py against the real SQLite (concrete values)."""
import random, sys, os, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import sqlite3 as real
from engine import symsql as sym

sym.PREFILTER = 0  # so that its answers are compared too

DDL = [
 "pragma foreign_keys=ON",
 "create table p(id integer primary key, n text, w integer default 4, unique(n))",
 "create table c(id integer primary key references p(id) on delete cascade, g integer references q(g) on delete cascade, d integer, pin bool default 0)",
 "create table q(g integer primary key, k integer default 0)",
 "create table log(x, y)",
 "create table chg(g integer primary key references q on delete cascade)",
 "create table k2(a text not null, b integer, v, primary key (a, b))",
 "create index i1 on c(g, d)",
 """create trigger t1 before insert on c begin
   insert or ignore into q(g) values (new.g);
   insert or ignore into chg(g) values (new.g); end""",
 """create trigger t2 before update on c when old.g != new.g begin
   insert or ignore into q(g) values (new.g);
   insert or ignore into chg values (new.g), (old.g); end""",
 """create trigger t3 before delete on c begin insert or ignore into chg(g) values (old.g); end""",
 "create trigger t4 after update of k on q begin insert into log values(old.k, new.k); end",
]
def stmts(r):
    i=lambda: r.randint(0,4)
    n=lambda: r.choice(["'a'","'b'","'c'","'1'","1","null"])
    return r.choice([
     lambda:(f"insert into p(n) values({n()})",()),
     lambda:(f"insert or ignore into p(id,n,w) values(?,?,?)",(i(),r.choice("abcd"),i())),
     lambda:(f"replace into p(id,n,w) values(?,?,?)",(i(),r.choice("abcd"),i())),
     lambda:(f"replace into p(id,n,w) select (select id from p p2 where (p2.n,p2.w)=(p.n,p.w)), n, sum(w)+{i()} from p group by n",()),
     lambda:(f"insert into c(id,g,d) values(?,?,(select w from p where id=?1))",(i(),i())),
     lambda:(f"insert or ignore into c(id,g,d) values(?,?,?)",(i(),i(),i())),
     lambda:(f"insert into c(id,g) values(?,?) on conflict(id) do update set g=excluded.g, d=coalesce(d,0)+1",(i(),i())),
     lambda:(f"update c set g=? where g=?",(i(),i())),
     lambda:(f"update c set g=? where id=?",(str(i()),i())),
     lambda:(f"update or ignore p set n=? where id>?",(r.choice("abcd"),i())),
     lambda:(f"update p set id=id+? where id=?",(i(),i())),
     lambda:(f"update q set k=(select count(*) from c where c.g=q.g) where g in (select g from chg)",()),
     lambda:(f"update q set (k)=(?)",(i(),)),
     lambda:(f"delete from q where k=0",()),
     lambda:(f"delete from chg",()),
     lambda:(f"delete from p where id=?",(i(),)),
     lambda:(f"delete from c where g=? and d>=?",(i(),i())),
     lambda:("savepoint s",()), lambda:("release s",()), lambda:("rollback to s",()),
     lambda:("begin",()), lambda:("commit",()), lambda:("rollback",()),
     lambda:(f"insert into k2 values(?,?,?)",(r.choice(["x","y",None,3]),r.choice([i(),None,"2","z"]),i())),
     lambda:(f"insert into k2 select n,w,id from p where n is not null on conflict do nothing",()),
     lambda:(f"delete from k2 where (a,b) in (select n,w from p)",()),
    ])()
QUERIES = [
 "select * from p order by id", "select * from c order by id","select * from q order by g","select * from chg order by g","select x,y from log",
 "select a,b,v,typeof(b) from k2 order by a,b",
 "select g, count(*), sum(d), min(d), max(d), avg(d) from c group by g order by g",
 "select count(*), sum(d), coalesce(max(g),0)+1 from c",
 "select p.id, c.g, n from p left join c using(id) order by p.id, c.g",
 "select id, n from p inner join c using(id) where g>=1 order by d desc, id limit 3",
 "select g, (select count(*) from c where c.g=q.g) z, exists(select 1 from p where p.w=q.k) from q order by z desc, g",
 "select distinct w from p order by 1 desc", "select n, w from p union select a, b from k2 order by 1,2",
 "with t as (select g, count(*) n from c group by g having count(*)>1) select t.*, q.k from t join q using(g) order by t.g",
 "select id, case when w>2 then 'hi' when w is null then 'no' else 'lo' end, w between 1 and 3, n in ('a','b') from p order by id",
 "select id, row_number() over (partition by g order by d desc, id) rn from c order by id",
 "select g, group_concat(id) from (select * from c order by id) group by g order by g",
 "select count(distinct g), total(d) from c where not (d is null or g=1)",
 "select count(*) from sqlite_master", "select -w/2, w%3, w||n, w*1.5 from p order by id",
 "select id from p where n='1' order by id", "select id from p where w='4' order by id", "select g from c where id='2'",
]
def run(seed, steps=40):
    r=random.Random(seed)
    d=tempfile.mkdtemp(prefix="sqldiff")
    sym.reset_world()
    a=real.connect(d+"/a.db",isolation_level=None); b=sym.connect(d+"/b.db",isolation_level=None)
    a2=real.connect(d+"/a.db",isolation_level=None,timeout=0); b2=sym.connect(d+"/b.db",isolation_level=None)
    a.execute("pragma journal_mode=wal")
    log=[]
    try:
        for s in DDL:
            a.execute(s); b.execute(s)
        for _ in range(steps):
            s,p=stmts(r)
            which=r.random()<0.85
            res=[]
            for x,y in ((a,a2),(b,b2)):
                c=x if which else y
                if not which and s.startswith(("begin","savepoint")): res.append("skip"); continue
                try:
                    cur=c.execute(s,p); res.append(("ok",cur.rowcount))
                except Exception as e:
                    res.append((type(e).__name__,str(e)))
            log.append((which,s,p,res))
            if res[0]!=res[1]: return log,"result"
            for q in QUERIES:
                for x,y in ((a,b),(a2,b2)):
                    try: u=list(x.execute(q))
                    except Exception as e: u=(type(e).__name__,str(e))
                    try: v=list(y.execute(q))
                    except Exception as e: v=(type(e).__name__,str(e))
                    if u!=v: return log,(q,u,v)
        return None
    finally:
        a.close();a2.close()
        import shutil; shutil.rmtree(d)
if __name__=="__main__":
    n=int(sys.argv[1]); bad=0
    for seed in range(n):
        x=run(seed)
        if x:
            bad+=1
            print("SEED",seed,x[1]); 
            for l in x[0][-4:]: print("   ",l)
            if bad>4: break
    print("done",n,"bad",bad)
    sys.exit(1 if bad else 0)
