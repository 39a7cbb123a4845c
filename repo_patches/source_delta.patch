From cb42efb8efb2b2c70f1c4084beb8f7fe8ac7d40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 01/54] fix: transfer operators accept single-site MPS objects
 (undefined name in the length guard)

---
 lib/mpslib/mpsfunctions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index b2d61db..82964c9 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1505,7 +1505,7 @@ def TransferOperator(direction,mps,vector):
         A=mps
         [D1,D2,d]= A.shape
     elif isinstance(mps,MPSL.MPS):
-        if len(A)>1:
+        if len(mps)>1:
             raise ValueError("in TransferOperator: got an MPS object of len(MPS)>1; can only handle single-site objects")
         A=mps[0]
         [D1,D2,d]= A.shape
@@ -1537,9 +1537,9 @@ def MixedTransferOperator(direction,mpsA,mpsB,vector):
         [D1B,D2B,dB]= Upper.shape
         
     elif isinstance(mpsA,MPSL.MPS) and isinstance(mpsB,MPSL.MPS):
-        if len(A)>1:
+        if len(mpsA)>1:
             raise ValueError("in TransferOperator: got an MPS object mpsA of len(mpsA)>1; can only handle single-site objects")
-        if len(B)>1:
+        if len(mpsB)>1:
             raise ValueError("in TransferOperator: got an MPS object mpsB of len(mpsB)>1; can only handle single-site objects")
         Upper=mpsA[0]
         Lower=mpsB[0]
@@ -1547,14 +1547,14 @@ def MixedTransferOperator(direction,mpsA,mpsB,vector):
         [D1B,D2B,dB]= Upper.shape
         
     elif isinstance(mpsA,MPSL.MPS) and isinstance(mpsB,np.ndarray):
-        if len(A)>1:
+        if len(mpsA)>1:
             raise ValueError("in TransferOperator: got an MPS object mpsA of len(mpsA)>1; can only handle single-site objects")
         Upper=mpsA[0]
         Lower=mpsB
         [D1A,D2A,dA]= Lower.shape
         [D1B,D2B,dB]= Upper.shape
     elif isinstance(mpsB,MPSL.MPS) and isinstance(mpsA,np.ndarray):
-        if len(B)>1:
+        if len(mpsB)>1:
             raise ValueError("in TransferOperator: got an MPS object mpsA of len(mpsA)>1; can only handle single-site objects")
         Upper=mpsA
         Lower=mpsB[0]
-- 
2.43.0


From d46abafcc6f55eaa16c3831cf8cdeb35b2ca51b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 02/54] fix: MixedUnitcellTransferOperator used undefined names
 mps1/mps2

---
 lib/mpslib/mpsfunctions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 82964c9..06fb85e 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1649,15 +1649,15 @@ def UnitcellTransferOperator(direction,mps,vector):
 #mps1 is the lower (conjugated) MPS, mps2 the upper (unconjugated) MPS
 def MixedUnitcellTransferOperator(direction,Upper,Lower,vector):
     x=np.copy(vector)
-    assert(len(mps1)==len(mps2))
+    assert(len(Upper)==len(Lower))
     if direction>0:
         #bring the vector in matrix form
-        for n in range(len(mps1)):
+        for n in range(len(Upper)):
             x=MixedTransferOperator(direction,Upper[n],Lower[n],x)
         return x
     if direction<0:
         #bring the vector in matrix form
-        for n in range(len(mps1)-1,-1,-1):
+        for n in range(len(Upper)-1,-1,-1):
             x=MixedTransferOperator(direction,Upper[n],Lower[n],x)
         return x
 
-- 
2.43.0


From 20cb7663a2f012935a709539742e7e81bf7de960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 03/54] fix: OneMinusPseudoTransferOperator treated every
 negative momentum as zero momentum

---
 lib/mpslib/mpsfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 06fb85e..aa4e603 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2534,13 +2534,13 @@ def OneMinusPseudoTransferOperator(Upper,Lower,r,l,direction,momentum,vector):
     [chiL1,chiL2,dL]=np.shape(Lower)
     if direction>0:
         x=np.reshape(vector,(chiU1,chiL1))
-        if np.abs(momentum<1E-8):
+        if np.abs(momentum)<1E-8:
             return vector-MixedTransferOperator(direction,Upper,Lower,vector)+np.reshape(np.tensordot(x,r,([0,1],[0,1]))*l,(chiU2*chiL2))
         else:
             return vector-np.exp(1j*momentum)*MixedTransferOperator(direction,Upper,Lower,vector)
     if direction<0:
         x=np.reshape(vector,(chiU2,chiL2))
-        if np.abs(momentum<1E-8):
+        if np.abs(momentum)<1E-8:
             return vector-MixedTransferOperator(direction,Upper,Lower,vector)+np.reshape(np.tensordot(l,x,([0,1],[0,1]))*r,(chiU1*chiL1))
         else:
             return vector-np.exp(1j*momentum)*MixedTransferOperator(direction,Upper,Lower,vector)
-- 
2.43.0


From 26a1a7e707852a65ac57fd40ec48de5426493405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 04/54] fix: svd fallback returned the full right factor for
 wide matrices

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index aa4e603..cf18a02 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -135,7 +135,7 @@ def svd(mat,full_matrices=False,r_thresh=1E-14):
     except np.linalg.linalg.LinAlgError:
         [q,r]=np.linalg.qr(mat)
         r[np.abs(r)<r_thresh]=0.0
-        u_,s,v=np.linalg.svd(r)
+        u_,s,v=np.linalg.svd(r,full_matrices=False)
         u=q.dot(u_)
         print('svd caught a LinAlgError')
     return u,s,v
-- 
2.43.0


From ccabef87473d51c01ba7abb164ab6650fec8e6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 05/54] fix: qr sign fix lost columns whose diagonal entry is
 zero

---
 lib/mpslib/mpsfunctions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index cf18a02..7f3ad59 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -148,10 +148,12 @@ def qr(mat,signfix):
     q,r=np.linalg.qr(mat)
     if signfix=='q':
         sign=np.sign(np.diag(q))
+        sign=np.where(sign==0,1.0,sign)
         unit=np.diag(sign)
         return q.dot(unit),herm(unit).dot(r)
     if signfix=='r':
         sign=np.sign(np.diag(r))
+        sign=np.where(sign==0,1.0,sign)
         unit=np.diag(sign)
         return q.dot(herm(unit)),unit.dot(r)
 
-- 
2.43.0


From 88bd3b29917132d2c9c006a60a263eb68087e017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 06/54] fix: prepareTensorSVD(fixphase=True) doubled the phase
 of the left factor instead of removing it

---
 lib/mpslib/mpsfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 7f3ad59..cce0d0a 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -621,8 +621,8 @@ def prepareTensorSVD(tensor,direction,fixphase=False):
         if fixphase==True:
             phase=np.angle(np.diag(u))
             unit=np.diag(np.exp(-1j*phase))
-            u=u.dot(herm(unit))
-            v=unit.dot(v)
+            u=u.dot(unit)
+            v=herm(unit).dot(v)
         Z=np.linalg.norm(s)            
         s/=Z
         [size1,size2]=u.shape
-- 
2.43.0


From 8ced1eaf20be862772b65eb78bcf37e29f6c30f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:13 +0000
Subject: [PATCH 07/54] fix: canonizeMPS ignored the centre matrix of an
 open-chain MPS object

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index cce0d0a..acbf461 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2271,7 +2271,7 @@ def canonizeMPS(mps,tr_thresh=1E-16,r_thresh=1E-14):
         assert(mps[len(mps)-1].shape[1]==1)
         #make a copy of the state
         if isinstance(mps,MPSL.MPS):
-            Gamma=copy.deepcopy(mps._tensors)
+            Gamma=mps.tolist()
         elif isinstance(mps,list):
             Gamma=copy.deepcopy(mps)
         else:
-- 
2.43.0


From e0a414d8dcc7968d72574932423fd5b39cb30b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:20 +0000
Subject: [PATCH 08/54] fix: FinegrainDolfi used full singular matrices and the
 wrong bond dimension for the right tensor

---
 lib/mpslib/mpsfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index acbf461..f267de0 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -112,12 +112,12 @@ def FinegrainDolfi(mps):
             raise ValueError("in FinegrainDolfi: local hilbert space dimension d has to be 2")
         tensor=np.transpose(np.tensordot(mps[n],T,([2],[0])),(0,2,1,3))
         matrix=np.reshape(tensor,(D1*2,D2*2))
-        U,S,V=np.linalg.svd(matrix)
+        U,S,V=np.linalg.svd(matrix,full_matrices=False)
 
         leftmat=U.dot(np.diag(np.sqrt(S)))
         rightmat=np.diag(np.sqrt(S)).dot(V)
         lefttens=np.transpose(np.reshape(leftmat,(D1,2,len(S))),(0,2,1))
-        righttens=np.reshape(rightmat,(len(S),D1,2))
+        righttens=np.reshape(rightmat,(len(S),D2,2))
 
         mpsfine.append(np.copy(lefttens))
         mpsfine.append(np.copy(righttens))
-- 
2.43.0


From 0c7842cf9bcc94d10d702184e3eca2f59e246e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:30 +0000
Subject: [PATCH 09/54] fix: overlap dropped the centre-matrix phases of the
 two states and failed for lists

---
 lib/mpslib/mpsfunctions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index f267de0..86b77cc 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -70,10 +70,13 @@ def overlap(mps1,mps2):
     for n in range(1,len(mps1)):
         L=addELayer(L,mps1[n],mps2[n],direction=1)
         
+    Z=1.0
     if isinstance(mps1,MPSL.MPS) and isinstance(mps2,MPSL.MPS):        
+        #the centermatrices are now at the boundary of the chain; they have dimension (1,1)
+        Z=mps1._mat[0,0]*np.conj(mps2._mat[0,0])*mps1._Z*np.conj(mps2._Z)
         mps1.__position__(pos1)
         mps2.__position__(pos2)    
-    return np.trace(L[:,:,0])*mps1._Z*np.conj(mps2._Z)
+    return np.trace(L[:,:,0])*Z
 
 def check_normalization(tensor,which,thresh=1E-10):
     """
-- 
2.43.0


From f39bfeffd62b026b77ffc82e19a6963fc18b2a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:30 +0000
Subject: [PATCH 10/54] fix: measure, measureMatrixElementList: missing return,
 parity string, scalar factors and operator dtype

---
 lib/mpslib/mps.py          | 19 +++++++++----------
 lib/mpslib/mpsfunctions.py |  2 +-
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 4b0a70b..a7651d1 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -820,7 +820,7 @@ class MPS:
         it back to its original position; this might cause some overhead
         """
         
-        self.__measureMatrixElementList__(mps,ops,lb,rb)
+        return self.__measureMatrixElementList__(mps,ops,lb,rb)
         
     def __measureMatrixElementList__(self,mps,ops,lb=None,rb=None):
 
@@ -845,7 +845,7 @@ class MPS:
                 v2=np.copy(mps._mat[0][0])
                 self.__position__(pos)
                 mps.__position__(mpspos)                
-                return L*v1*np.conj(v2)
+                return L*v1*np.conj(v2)*self._Z*np.conj(mps._Z)
 
 
     def measureLocal(self,op,site,lb=None,rb=None):
@@ -927,24 +927,23 @@ class MPS:
             #for fermionic modes one has to take into consideration the fermionic minus signs from the start (if len(ops) is odd)
             L=np.zeros((self[0].shape[0],self[0].shape[0],1)).astype(self._dtype)
             L[:,:,0]=np.copy(np.eye(self[0].shape[0]))
-            for n in range(sites[s]-1):
-                L=mf.addLayer(L,self[n],P[n],self[n],1)
+            for n in range(sites[s]):
+                L=mf.addLayer(L,self[n],np.reshape(P[n],(1,1,P[n].shape[0],P[n].shape[1])),self[n],1)
 
         while s<len(sites):
             if s<len(sites):
                 n=s
-                op=np.eye(self[s].shape[2])
+                op=np.eye(self[sites[s]].shape[2])
                 while n<len(sites) and sites[n]==sites[s]:
                     op=op.dot(ops[n])
                     par=(par+1)%2
                     n+=1
 
             assert(sites[s]==sites[n-1])
-            mpo=np.zeros((1,1,op.shape[0],op.shape[1])).astype(self._dtype)
-            if P==None or par==0:
-                mpo[0,0,:,:]=op
-            elif P!=None and par==1:
-                mpo[0,0,:,:]=op.dot(P[sites[s]])                
+            if P!=None and par==1:
+                op=op.dot(P[sites[s]])
+            mpo=np.zeros((1,1,op.shape[0],op.shape[1])).astype(op.dtype)
+            mpo[0,0,:,:]=op
 
             L=mf.addLayer(L,self[sites[s]],mpo,self[sites[s]],1)
             if n<len(sites):
diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 86b77cc..f1fc175 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -494,7 +494,7 @@ def matrixElementLocal(mps1,mps2,operators,lb,rb):
     rb: right boundary of the mps (for obc, rb=np.ones((1,1,1))
     ortho (str): can be {'left','right'} and denotes the orthogonal state of the mps
     """
-    dtype=np.result_type(mps1[0].dtype,mps2[0].dtype)
+    dtype=np.result_type(mps1[0].dtype,mps2[0].dtype,lb.dtype,rb.dtype,*[o.dtype for o in operators])
     N=len(mps1)
     if len(mps1)!=len(mps2):
         raise ValueError("matrixElementLocal: mps1 and mps2 have different lengths")
-- 
2.43.0


From ddef7007b07f90243b81d16a5ab707e6c8a29522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:26 +0000
Subject: [PATCH 11/54] fix: copying a state dropped its boundary condition
 flag

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index a7651d1..4778367 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -325,7 +325,7 @@ class MPS:
         cop._position=self._position
         cop._gamma=copy.deepcopy(self._gamma)
         cop._lambda=copy.deepcopy(self._lambda)
-        cop._obc-self._obc
+        cop._obc=self._obc
         cop._dtype=self._dtype
         cop._schmidt_thresh=self._schmidt_thresh
         cop._r_thresh=self._r_thresh
-- 
2.43.0


From 91a60ff0677a20aee6a3b5051d9a54e4a0509456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:26 +0000
Subject: [PATCH 12/54] fix: loading a state overwrote its maximal bond
 dimension with the chain length

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 4778367..fac3116 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1291,7 +1291,7 @@ class MPS:
         with open(filename+'.pickle', 'rb') as f:
             mps=pickle.load(f)
         self._N=mps._N
-        self._D=mps._N
+        self._D=mps._D
         self._obc=mps._obc
         self._dtype=mps._dtype
         self._schmidt_thresh=mps._schmidt_thresh
-- 
2.43.0


From f104d69444484e28f4e72ea95d0493bd5eef401d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:26 +0000
Subject: [PATCH 13/54] fix: complex conjugation of states (undefined names;
 centre matrix and scalar factor not conjugated)

---
 lib/mpslib/mps.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index fac3116..c5fe567 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -352,7 +352,7 @@ class MPS:
                    the operation to be applied to the mps tensors
         *args,**kwargs: arguments of operation
         """
-        for n in range(len(res)):
+        for n in range(len(self)):
             self[n]=operation(self[n],*args,**kwargs)
 
 
@@ -377,13 +377,16 @@ class MPS:
         in-place complex conjugation of the MPS
         """
         self.__in_place_unary_operations__(np.conj,*args,**kwargs)
+        self._mat=np.conj(self._mat)
+        self._connector=np.conj(self._connector)
+        self._Z=np.conj(self._Z)
     
     def __conjugate__(self,*args,**kwargs):
         """
         returns the complex conjugated MPS
         """
-        res=self.__unary_operations__(np.conj,*args,**kwargs)
-        res._qflow=utils.flipsigns(res._qflow)                
+        res=self.__copy__()
+        res.__conj__(*args,**kwargs)
         return res
 
 
@@ -391,13 +394,13 @@ class MPS:
         """
         returns the complex conjugated MPS
         """
-        return self.__conjugate__(self,*args,**kwargs)
+        return self.__conjugate__(*args,**kwargs)
 
     def conj(self,*args,**kwargs):
         """
         in-place complex conjugation of the MPS
         """        
-        return self.__conj__(self,*args,**kwargs)
+        return self.__conj__(*args,**kwargs)
 
     def __exp__(self,*args,**kwargs):
         """
-- 
2.43.0


From 4ea1b1ba98b97ebe1fab34c4418bd572586c3400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:26 +0000
Subject: [PATCH 14/54] fix: -mps negated every tensor instead of the state

---
 lib/mpslib/mps.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index c5fe567..0f60109 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -461,7 +461,12 @@ class MPS:
         return self.__imag__(*args,**kwargs)
     
 
-    __neg__ = generate_unary_deferer(opr.neg)
+    def __neg__(self):
+        """
+        returns the MPS multiplied by -1
+        """
+        return self*(-1)
+    
     __pos__ = generate_unary_deferer(opr.pos)
     __abs__ = generate_unary_deferer(abs)
     __invert__ = generate_unary_deferer(opr.invert)
-- 
2.43.0


From 591d7b5070311282ccd609e620e5a6d85b4041ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:26 +0000
Subject: [PATCH 15/54] fix: += left a stale centre matrix and position

---
 lib/mpslib/mps.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 0f60109..39decbd 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -554,8 +554,14 @@ class MPS:
         adds self with other;
         leaves self unnormalized
         """
-        self._tensors=mf.addMPS(self.tolist(),self._Z,other.tolist(),other._Z)
-        self._Z=1.0 
+        out=self+other
+        self._tensors=out._tensors
+        self._D=out._D
+        self._dtype=out._dtype
+        self._mat=out._mat
+        self._connector=out._connector
+        self._position=out._position
+        self._Z=out._Z
         return self
     
     def __sub__(self,other):
-- 
2.43.0


From e7962f823271da63126c0263f3690336273417b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:26 +0000
Subject: [PATCH 16/54] fix: imag() called an undefined method

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 39decbd..6dec209 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -445,7 +445,7 @@ class MPS:
         
         return self.__real__(*args,**kwargs)
 
-    def __imag_(self,*args,**kwargs):
+    def __imag__(self,*args,**kwargs):
         """
         return a new MPS with the imaginary part of self
         """
-- 
2.43.0


From cd21e7d3301290893a3d2ce3c7a3ca34aec3d08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:01 +0000
Subject: [PATCH 17/54] fix: fromList failed without a centre matrix

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 6dec209..31270e7 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -264,7 +264,7 @@ class MPS:
         """
 
         mps=cls(tensors,schmidt_thresh,r_thresh)
-        if all(mat)!=None:
+        if mat is not None:
             mps._mat=np.copy(mat)
         mps.__position__(0)        
         mps.__position__(mps._N)
-- 
2.43.0


From ac844d54f2cd1f4f774562e674cf872b32cba376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:15 +0000
Subject: [PATCH 18/54] fix: two-site gate without a bond limit compared None
 with an integer

---
 lib/mpslib/mps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 31270e7..f6bb11d 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1216,6 +1216,8 @@ class MPS:
         [Dl,d1,d2,Dr]=newState.shape
         U,S,V=mf.svd(np.reshape(newState,(Dl*d1,Dr*d2)))
         tw=0
+        if Dmax is None:
+            Dmax=len(S)
         Strunc=S[S>thresh]
         tw=sum(S[min(len(Strunc),Dmax)::]**2)
         Strunc=S[0:min(len(Strunc),Dmax)]
-- 
2.43.0


From bf60bc0b9d903cc7a12f37f25af2d518730a5574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:15 +0000
Subject: [PATCH 19/54] fix: applying an operator to a state used an undefined
 name

---
 lib/mpslib/mps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index f6bb11d..cdfac4d 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1270,10 +1270,10 @@ class MPS:
         """
         applies an mpo to an mps; no truncation is done
         """
-        assert(len(mpo)==len(mps))
+        assert(len(mpo)==len(self))
         self.__position__(0)
         self.__absorbCenterMatrix__(1)
-        for n in range(len(mps)):
+        for n in range(len(self)):
             Ml,Mr,din,dout=mpo[n].shape 
             Dl,Dr,d=self[n].shape
             if n==0:
-- 
2.43.0


From 2a033df3563b37a4bc01739e3a166f415eadd6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:35 +0000
Subject: [PATCH 20/54] fix: truncate compared its limit with the requested,
 not the actual bond dimensions

---
 lib/mpslib/mps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index cdfac4d..f5a3963 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1002,8 +1002,8 @@ class MPS:
         returned_gauge: 'left','right' or 'symmetric': the desired gauge after truncation
         """
         
-        if D!=None and D>self._D:
-            print('MPS.__truncate__(): D>self._D, no truncation neccessary')
+        if D!=None and D>max(self.D):
+            print('MPS.__truncate__(): D>max(self.D), no truncation neccessary')
             return
         else:
             if self._obc==True:
-- 
2.43.0


From 0cb45501a250850e5a909934fa21d19a2d4fa3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:10 +0000
Subject: [PATCH 21/54] fix: ODE-solver TDVP evolved backwards in time

---
 lib/mpslib/engines.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 5019a22..f01e270 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1323,7 +1323,7 @@ class TimeEvolutionEngine(Container):
                 self._mps.__position__(n+1)
                 #evolve tensor forward
                 if solver in ['Radau','RK45','RK23','BDF','LSODA','RK23']:
-                    evTen=mf.evolveTensorsolve_ivp(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),np.imag(dt_),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
+                    evTen=mf.evolveTensorsolve_ivp(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),-np.imag(dt_),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
                 elif solver=='LAN':
                     evTen=mf.evolveTensorLan(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),dt_,krylov_dimension=krylov_dim) #clear=True resets self._mat to identity
                 elif solver=='SEXPMV':                    
@@ -1336,7 +1336,7 @@ class TimeEvolutionEngine(Container):
                 #evolve matrix backward                    
                 if n<(self._mps._N-1):
                     if solver in ['Radau','RK45','RK23','BDF','LSODA','RK23']:
-                        evMat=mf.evolveMatrixsolve_ivp(self._L[n+1],self._R[self._mps._N-1-n],mat,-np.imag(dt_),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
+                        evMat=mf.evolveMatrixsolve_ivp(self._L[n+1],self._R[self._mps._N-1-n],mat,np.imag(dt_),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
                     elif solver=='LAN':                        
                         evMat=mf. evolveMatrixLan(self._L[n+1],self._R[self._mps._N-1-n],mat,-dt_,krylov_dimension=krylov_dim)
                     elif solver=='SEXPMV':                                            
@@ -1352,7 +1352,7 @@ class TimeEvolutionEngine(Container):
                 self._mps.__position__(n+1)
                 self._R[self._mps._N-n-1]=mf.addLayer(self._R[self._mps._N-n-2],self._mps[n+1],self._mpo[n+1],self._mps[n+1],-1)
                 if solver in ['Radau','RK45','RK23','BDF','LSODA','RK23']:                    
-                    evMat=mf.evolveMatrixsolve_ivp(self._L[n+1],self._R[self._mps._N-1-n],self._mps._mat,-np.imag(dt_),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity                    
+                    evMat=mf.evolveMatrixsolve_ivp(self._L[n+1],self._R[self._mps._N-1-n],self._mps._mat,np.imag(dt_),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity                    
                 elif solver=='LAN':                
                     evMat=mf. evolveMatrixLan(self._L[n+1],self._R[self._mps._N-1-n],self._mps._mat,-dt_,krylov_dimension=krylov_dim)
                 elif solver=='SEXPMV':                                    
@@ -1363,7 +1363,7 @@ class TimeEvolutionEngine(Container):
             
                 #evolve tensor forward: the back-evolved center matrix is absorbed into the left-side tensor, and the product is evolved forward in time
                 if solver in ['Radau','RK45','RK23','BDF','LSODA','RK23']:                                    
-                    evTen=mf.evolveTensorsolve_ivp(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),np.imag(dt_),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
+                    evTen=mf.evolveTensorsolve_ivp(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),-np.imag(dt_),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
                 elif solver=='LAN':                                
                     evTen=mf. evolveTensorLan(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),dt_,krylov_dimension=krylov_dim)
                 elif solver=='SEXPMV':                                                        
-- 
2.43.0


From b2b608acae636a4a8517730352f692b455b29bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:11 +0000
Subject: [PATCH 22/54] fix: ODE-solver TDVP discarded the imaginary part for
 real states

---
 lib/mpslib/mpsfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index f1fc175..7a21901 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1353,7 +1353,7 @@ def evolveTensorsolve_ivp(L,mpo,R,mps,tau,method='RK45',rtol=1E-3,atol=1E-6):
     chi2p=np.shape(R)[1]
     dp=np.shape(mpo)[3]
     mv=fct.partial(HAproductSingleSite,*[L,mpo,R])
-    out=solve_ivp(lambda t,y:(-1j)*mv(y),t_span=(0.0,tau),y0=np.reshape(mps,(chi1*chi2*d)),method=method,rtol=rtol,atol=atol)    
+    out=solve_ivp(lambda t,y:(-1j)*mv(y),t_span=(0.0,tau),y0=np.reshape(mps,(chi1*chi2*d)).astype(np.result_type(mps,np.complex64)),method=method,rtol=rtol,atol=atol)    
     #solver=RK45(lambda t,y:(-1j)*mv(y),t0=0.0,y0=np.reshape(mps,(chi1*chi2*d)),t_bound=tau,rtol=rtol,atol=atol)    
     #return np.reshape(solver.dense_output()(tau),mps.shape)
     return np.reshape(out.y[:,-1],mps.shape)
@@ -1367,7 +1367,7 @@ def evolveMatrixsolve_ivp(L,R,mat,tau,method='RK45',rtol=1E-3,atol=1E-6):
     chi1p=np.shape(L)[1]
     chi2p=np.shape(R)[1]
     mv=fct.partial(HAproductBond,*[L,R])
-    out=solve_ivp(lambda t,y:(-1j)*mv(y),t_span=(0.0,tau),y0=np.reshape(mat,(chi1*chi2)),method=method,rtol=rtol,atol=atol)
+    out=solve_ivp(lambda t,y:(-1j)*mv(y),t_span=(0.0,tau),y0=np.reshape(mat,(chi1*chi2)).astype(np.result_type(mat,np.complex64)),method=method,rtol=rtol,atol=atol)
     return np.reshape(out.y[:,-1],mat.shape)
     #solver=RK45(lambda t,y:(-1j)*mv(y),t0=0.0,y0=np.reshape(mat,(chi1*chi2)),t_bound=tau,rtol=rtol,atol=atol)
     #solver.step()
-- 
2.43.0


From 69a4bffb2d137347f04de94405531d4635fb706c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:11 +0000
Subject: [PATCH 23/54] fix: Radau integrators used an undefined name

---
 lib/mpslib/mpsfunctions.py | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 7a21901..c4402f3 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1374,29 +1374,10 @@ def evolveMatrixsolve_ivp(L,R,mat,tau,method='RK45',rtol=1E-3,atol=1E-6):
     #return np.reshape(solver.dense_output()(tau),mat.shape)    
 
 def evolveTensorRadau(L,mpo,R,mps,tau,rtol=1E-3,atol=1E-6):
-    if not np.issubdtype(type(tau),np.dtype(float)):        
-        raise TypeError(" evolveTensorRK45(L,mpo,R,mps,tau,rtol=1E-3,atol=1E-6): tau has to be a float")
-    
-    [chi1,chi2,d]=np.shape(mps)
-    chi1p=np.shape(L)[1]
-    chi2p=np.shape(R)[1]
-    dp=np.shape(mpo)[3]
-    mv=fct.partial(HAproductSingleSite,*[L,mpo,R])
-    solver=Radau(lambda t,y:(-1j)*mv(y),t0=0.0,y0=np.reshape(mps,(chi1*chi2*d)),t_bound=tau,rtol=rtol,atol=atol)    
-    solver.step()
-    return np.reshape(solver.dense_output()(tau),mps.shape)
+    return evolveTensorsolve_ivp(L,mpo,R,mps,tau,method='Radau',rtol=rtol,atol=atol)
 
 def evolveMatrixRadau(L,R,mat,tau,rtol=1E-3,atol=1E-6):
-    if not np.issubdtype(type(tau),np.dtype(float)):
-        raise TypeError(" evolveTensorRK45(L,mpo,R,mps,tau,rtol=1E-3,atol=1E-6): tau has to be a float")
-    
-    [chi1,chi2]=np.shape(mat)
-    chi1p=np.shape(L)[1]
-    chi2p=np.shape(R)[1]
-    mv=fct.partial(HAproductBond,*[L,R])
-    solver=Radau(lambda t,y:(-1j)*mv(y),t0=0.0,y0=np.reshape(mat,(chi1*chi2)),t_bound=tau,rtol=rtol,atol=atol)
-    solver.step()
-    return np.reshape(solver.dense_output()(tau),mat.shape)    
+    return evolveMatrixsolve_ivp(L,R,mat,tau,method='Radau',rtol=rtol,atol=atol)
 
 
 
-- 
2.43.0


From 1a5bfe39a107a1b12c7e09f5359aeb92f0cf9ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:11 +0000
Subject: [PATCH 24/54] fix: a TEBD run of zero steps applied half a step

---
 lib/mpslib/engines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index f01e270..094d68e 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1247,7 +1247,8 @@ class TimeEvolutionEngine(Container):
 
         #even half-step:
         current='None'
-        self.applyEven(dt/2.0,Dmax,tr_thresh)
+        if numsteps>0:
+            self.applyEven(dt/2.0,Dmax,tr_thresh)
         for step in range(numsteps):
             #odd step updates:
             self.applyOdd(dt,Dmax,tr_thresh)
-- 
2.43.0


From 3f9471294b36457fc42985e708a200f01f21f4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:11 +0000
Subject: [PATCH 25/54] fix: evolved time was only counted with verbose output

---
 lib/mpslib/engines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 094d68e..f359630 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1252,8 +1252,8 @@ class TimeEvolutionEngine(Container):
         for step in range(numsteps):
             #odd step updates:
             self.applyOdd(dt,Dmax,tr_thresh)
+            self._t0+=np.abs(np.imag(dt))
             if verbose>=1:
-                self._t0+=np.abs(np.imag(dt))
                 stdout.write("\rTEBD engine: t=%4.4f truncated weight=%.16f at D/Dmax=%i/%i, truncation threshold=%1.16f, |dt|=%1.5f"%(self._t0,self._tw,np.max(self.mps.D),Dmax,tr_thresh,np.abs(dt)))
                 stdout.flush()
             if verbose>=2:
-- 
2.43.0


From e9324e79a7faa385ca3d8e492cee75cf62890858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:03 +0000
Subject: [PATCH 26/54] fix: TDVP time was only counted with verbose output

---
 lib/mpslib/engines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index f359630..a4cbf45 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1376,8 +1376,8 @@ class TimeEvolutionEngine(Container):
 
                 self._mps._mat=mat
                 self._mps._position=n
+            self._t0+=np.abs(np.imag(dt))                
             if verbose>=1:
-                self._t0+=np.abs(np.imag(dt))                
                 stdout.write("\rTDVP engine using %s solver: t=%4.4f, D=%i, |dt|=%1.5f"%(solver,self._t0,np.max(self._mps.D),np.abs(dt)))
                 stdout.flush()
             if verbose>=2:                
-- 
2.43.0


From 631ea50bfcb678e31d733b27363ec6ce300081cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:56 +0000
Subject: [PATCH 27/54] fix: the sum of real and complex states or factors lost
 its imaginary part

---
 lib/mpslib/mpsfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index c4402f3..437b014 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -168,7 +168,7 @@ def directsum(m1,m2):
     returns: the direct sum of two matrices
     """
 
-    dtype=type(m1[0,0])
+    dtype=np.result_type(m1,m2)
     out=np.zeros((list(map(sum,zip(m1.shape,m2.shape)))),dtype=dtype)
     out[0:m1.shape[0],0:m1.shape[1]]=m1
     out[m1.shape[0]:m1.shape[0]+m2.shape[0],m1.shape[1]:m1.shape[1]+m2.shape[1]]=m2
@@ -184,7 +184,7 @@ def addMPS(mps1,Z1,mps2,Z2,obc=True):
     if len(mps1)!=len(mps2):
         raise ValueError("addMPS(mps1,mps2): mps1 and mps2 have different length")
     
-    dtype=int
+    dtype=np.result_type(int,type(Z1),type(Z2))
 
     for n in range(len(mps1)):
         dtype=np.result_type(dtype,mps1[n].dtype)
-- 
2.43.0


From 4ae2bb2d1c7e7993efba3cdbf07c521a1d6a510c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:12 +0000
Subject: [PATCH 28/54] fix: warnings of the local eigensolvers raised
 AttributeError, several bond vectors never returned

---
 lib/mpslib/mpsfunctions.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 437b014..0f5f869 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1230,7 +1230,7 @@ def eigsh(L,mpo,R,mps0,tolerance=1e-6,numvecs=1,numcv=10,numvecs_returned=1):
 
     elif numvecs_returned>1:
         if (numvecs_returned>numvecs):
-            sys.warning('mpsfunctions.eigsh: requestion to return more vectors than calcuated: setting numvecs_returned=numvecs',stacklevel=2)
+            warnings.warn('mpsfunctions.eigsh: requestion to return more vectors than calcuated: setting numvecs_returned=numvecs',stacklevel=2)
             numvecs_returned=numvecs
         es=[]
         vs=[]
@@ -1269,9 +1269,6 @@ def lobpcg(L,mpo,R,mps0,tolerance=1e-6,numvecs_returned=1):
         return e[ind[0][0]],np.reshape(v[:,ind[0][0]],(chi1p,chi2p,dp))
 
     elif numvecs_returned>1:
-        if (numvecs_returned>numvecs):
-            sys.warning('mpsfunctions.eigsh: requestion to return more vectors than calcuated: setting numvecs_returned=numvecs',stacklevel=2)
-            numvecs_returned=numvecs
         es=[]
         vs=[]
         esorted=np.sort(e)
@@ -1411,15 +1408,15 @@ def eigshbond(L,mpo,mps,R,mat0,position,tolerance=1e-6,numvecs=1,numcv=10,numvec
         return e[ind[0][0]],np.reshape(v[:,ind[0][0]],(chi1p,chi2p))
     elif numvecs_returned>1:
         if (numvecs_returned>numvecs):
-            sys.warning('mpsfunctions.eigsh: request to return more vectors than calcuated: setting numvecs_returned=numvecs',stacklevel=2)
+            warnings.warn('mpsfunctions.eigsh: request to return more vectors than calcuated: setting numvecs_returned=numvecs',stacklevel=2)
             numvecs_returned=numvecs
-            es=[]
-            vs=[]
-            esorted=np.sort(e)
-            for n in range(numvecs_returned):
-                es.append(esorted[n])
-                ind=np.nonzero(e==esorted[n])
-                vs.append(np.reshape(v[:,ind[0][0]],(chi1p,chi2p)))
+        es=[]
+        vs=[]
+        esorted=np.sort(e)
+        for n in range(numvecs_returned):
+            es.append(esorted[n])
+            ind=np.nonzero(e==esorted[n])
+            vs.append(np.reshape(v[:,ind[0][0]],(chi1p,chi2p)))
         return es,vs
         
     #if position=='left':
-- 
2.43.0


From 6bd6992abdca912bd6a727118d12f05ac43edc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:12 +0000
Subject: [PATCH 29/54] fix: energy of the unit cell contracted the block with
 the transposed density matrix

---
 lib/mpslib/mpsfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 0f5f869..ee289ad 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1905,7 +1905,7 @@ def computeUCsteadyStateHamiltonianGMRES(mps,mpopbc,boundary,ldens,rdens,directi
         for n in range(0,len(mps)):
             L=addLayer(L,mps[n],mpopbc[n],mps[n],1)    
 
-        h=np.trace(L[:,:,0].dot(rdens[-1]))
+        h=np.tensordot(L[:,:,0],rdens[-1],([0,1],[0,1]))
         inhom=np.reshape(L[:,:,0]-h*np.transpose(np.eye(D2r)),D2r*D2r) 
         [k2,info]=TDVPGMRESUC(mps,ldens,rdens,inhom,np.reshape(boundary,(D1l*D1l)),thresh,imax,datatype=dtype,direction=1)
         L[:,:,0]=np.reshape(k2,(D2r,D2r))
@@ -1918,7 +1918,7 @@ def computeUCsteadyStateHamiltonianGMRES(mps,mpopbc,boundary,ldens,rdens,directi
         for n in range(len(mps)-1,-1,-1):
             R=addLayer(R,mps[n],mpopbc[n],mps[n],-1)    
 
-        h=np.trace(R[:,:,-1].dot(ldens[0]))
+        h=np.tensordot(R[:,:,-1],ldens[0],([0,1],[0,1]))
         inhom=np.reshape(R[:,:,-1]-h*np.transpose(np.eye(D1l)),D1l*D1l)
 
         [k2,info]=TDVPGMRESUC(mps,ldens,rdens,inhom,np.reshape(boundary,(D2r*D2r)),thresh,imax,datatype=dtype,direction=-1)
-- 
2.43.0


From f5c958d4ac3c3c05cd31a81e55aecdc60a2ea04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:12 +0000
Subject: [PATCH 30/54] fix: TDVPGMRES ignored the momentum

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index ee289ad..3cd4139 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2571,7 +2571,7 @@ def TDVPGMRES(tensorU,tensorL,r,l,inhom,x0,tolerance=1e-10,maxiteration=2000,dir
     """
     
     warnings.warn('mpsfunctions.TDVPGMRES is deprecated; use mpsfunctions.RENORMBLOCKHAMGMRES instead')
-    return RENORMBLOCKHAMGMRES(tensorU,tensorL,r,l,inhom,x0,tolerance,maxiteration,direction)
+    return RENORMBLOCKHAMGMRES(tensorU,tensorL,r,l,inhom,x0,tolerance,maxiteration,direction,momentum)
 
 #calculates the reduced block hamiltonian for left or right side (depending on dir)
 def RENORMBLOCKHAMGMRES(tensorU,tensorL,r,l,inhom,x0,tolerance=1e-10,maxiteration=200,direction=1,momentum=0.0):
-- 
2.43.0


From 3428e20873f27140542286976c785bd1dd9b8190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:12 +0000
Subject: [PATCH 31/54] fix: regauge in left gauge overwrote the tensor of the
 caller

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 3cd4139..c920b80 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2348,7 +2348,7 @@ def regauge(tensor,gauge,initial=None,nmaxit=100000,tol=1E-10,ncv=50,numeig=6,pi
         [eta,v,numeig]=TMeigs(tensor,direction=1,numeig=numeig,init=initial,nmax=nmaxit,tolerance=tol,ncv=ncv)
         #rescale so that eta=1
         #tensor=tensor/np.sqrt(np.real(eta))
-        tensor/=np.sqrt(np.real(eta))        
+        tensor=tensor/np.sqrt(np.real(eta))        
         if np.abs(np.imag(eta))/np.abs(np.real(eta))>thresh:
             print ('in regauge: warning: found eigenvalue eta with large imaginary part: {0}'.format(eta))
         l=np.reshape(v,(chi,chi))
-- 
2.43.0


From 078d4c6f773421a153b50e8512fa0bc4f44b394f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:12 +0000
Subject: [PATCH 32/54] fix: dtype of a state with complex tensors, centre
 matrix or scalar factor

---
 lib/mpslib/mps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index f5a3963..4daeabd 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -129,7 +129,7 @@ class MPS:
         """
         the dtype of the mps tensors
         """
-        return self._dtype
+        return np.result_type(self._dtype,self._mat,*self._tensors)
     @property
     def obc(self):
         return self._obc
@@ -493,6 +493,7 @@ class MPS:
         if not np.isscalar(num):
             raise TypeError("in MPS.__mul__(self,num): num is not a number")
         self._Z*=num
+        self._dtype=np.result_type(type(num),self._dtype)
         return self
     
 
-- 
2.43.0


From 1d39a0518952e3b59ecb3115cb6f25e64f4760ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:13 +0000
Subject: [PATCH 33/54] fix: MPO objects made from a list have no dtype,
 fromMPO used an unknown attribute

---
 lib/mpslib/Hamiltonians.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index decd5a4..fc52fa3 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -21,11 +21,12 @@ class MPO:
     #a list of mpo-tensors, to be initialized in the derived class
     self._mpo = copy.deepcopy(mpos)
     self._N = len(self._mpo)
+    self._dtype = np.result_type(float, *self._mpo)
 
   @classmethod
   def fromMPO(cls, other):
     #a list of mpo-tensors, to be initialized in the derived class
-    return cls(other._mpolist)
+    return cls(other._mpo)
 
   @classmethod
   def fromlist(cls, mpolist):
-- 
2.43.0


From 07766bc455c3cc5d7b2866cf06681db468b81217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:13 +0000
Subject: [PATCH 34/54] fix: TFI_2 used an undefined field name

---
 lib/mpslib/Hamiltonians.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index fc52fa3..cf04ca5 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -110,7 +110,7 @@ class TFI_2(MPO):
       self._mpo = []
       temp = np.zeros((1, 3, 2, 2), self.dtype)
       #Bx
-      temp[0, 0, :, :] = self._Bz[0] * sig_x
+      temp[0, 0, :, :] = self._Bx[0] * sig_x
       #Sz
       temp[0, 1, :, :] = self._Jz[0] * sig_z
       #11
@@ -140,7 +140,7 @@ class TFI_2(MPO):
       #Sz
       temp[1, 0, :, :] = sig_z
       #Bx Sx
-      temp[2, 0, :, :] = sig_x * self._Bz[-1]
+      temp[2, 0, :, :] = sig_x * self._Bx[-1]
       self._mpo.append(np.copy(temp))
 
     if obc == False:
-- 
2.43.0


From b729dc5e10b8d5746ebfcd1d4c06c177ae285b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:13 +0000
Subject: [PATCH 35/54] fix: root finder hidden by another function of the same
 name

---
 lib/utils/utilities.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/utils/utilities.py b/lib/utils/utilities.py
index 68971b4..3b795d4 100644
--- a/lib/utils/utilities.py
+++ b/lib/utils/utilities.py
@@ -154,7 +154,7 @@ def funR(x,period,dtype=float,const=False):
         
         return f
     
-def bisection(fun,a,b,tol=1E-10,maxit=1000):
+def findRoot(fun,a,b,tol=1E-10,maxit=1000):
     if fun(a)==0.0:
         return a
     if fun(b)==0.0:
@@ -237,7 +237,7 @@ def periodicSmooth(xin,ar,order,window_length, polyorder,Delta=0.01,tol=1E-10,im
                             a,b,conv=placeBraket(funr,a0,b0,Delta,thresh=thresh)
                             if conv==True:
                                 #there is a root
-                                xR=bisection(funr,a,b,tol=tol,maxit=imax)
+                                xR=findRoot(funr,a,b,tol=tol,maxit=imax)
                                 break
                             elif conv==False:
                                 #there is no root between a0,b0; shift the points a bit and redefine funr
@@ -319,7 +319,7 @@ def periodicSmooth(xin,ar,order,window_length, polyorder,Delta=0.01,tol=1E-10,im
                             a,b,conv=placeBraket(funi,a0,b0,Delta,thresh=thresh)
                             if conv==True:
                                 #there is a root
-                                xR=bisection(funi,a,b,tol=tol,maxit=imax)
+                                xR=findRoot(funi,a,b,tol=tol,maxit=imax)
                                 if xR>x[-1]:
                                     conv=False
                                 if xR<x[-1]:
@@ -451,7 +451,7 @@ def periodicSmooth(xin,ar,order,window_length, polyorder,Delta=0.01,tol=1E-10,im
                             a,b,conv=placeBraket(funr,a0,b0,Delta,thresh=thresh)
                             if conv==True:
                                 #there is a root
-                                xR=bisection(funr,a,b,tol=tol,maxit=imax)
+                                xR=findRoot(funr,a,b,tol=tol,maxit=imax)
                                 break
                             elif conv==False:
                                 #there is no root between a0,b0; shift the points a bit and redefine funr
@@ -641,7 +641,7 @@ def bisection(grid,position):
     g=np.copy(grid)
     while  True:
         N=len(g)
-        i0=(N-N%2)/2
+        i0=(N-N%2)//2
         lgrid=np.copy(g[0:i0])
         rgrid=np.copy(g[i0::])
         if (position>=lgrid[-1])&(position<=rgrid[0]):
-- 
2.43.0


From d69a527be3572d1f3af5306fcde845c1365b94a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:41 +0000
Subject: [PATCH 36/54] fix: XXZflipped uses the coupling of each bond and real
 operator entries

---
 lib/mpslib/Hamiltonians.py | 44 +++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index cf04ca5..93441e1 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -506,9 +506,9 @@ class XXZflipped(MPO):
       #Sx
       temp[0, 1, 0, 1] = J[0]
       temp[0, 1, 1, 0] = J[0]
-      #Sy
-      temp[0, 2, 0, 1] = +1j * (-J[0])
-      temp[0, 2, 1, 0] = -1j * (-J[0])
+      #Sy (real: Sy*Sy=-(iSy)*(iSy))
+      temp[0, 2, 0, 1] = J[0]
+      temp[0, 2, 1, 0] = -J[0]
 
       #Sz
       temp[0, 3, 0, 0] = -Delta[0] * J[0] * (-1.0)
@@ -525,20 +525,20 @@ class XXZflipped(MPO):
         #Sx
         temp[1, 0, 0, 1] = 1.0
         temp[1, 0, 1, 0] = 1.0
-        #Sy
-        temp[2, 0, 0, 1] = +1j
-        temp[2, 0, 1, 0] = -1j
+        #Sy (real: Sy*Sy=-(iSy)*(iSy))
+        temp[2, 0, 0, 1] = 1.0
+        temp[2, 0, 1, 0] = -1.0
 
         #Sz
         temp[3, 0, 0, 0] = -1.0
         temp[3, 0, 1, 1] = +1.0
 
         #Sx
-        temp[4, 1, 0, 1] = J[0]
-        temp[4, 1, 1, 0] = J[0]
-        #Sy
-        temp[4, 2, 0, 1] = +1j * (-J[0])
-        temp[4, 2, 1, 0] = -1j * (-J[0])
+        temp[4, 1, 0, 1] = J[site]
+        temp[4, 1, 1, 0] = J[site]
+        #Sy (real: Sy*Sy=-(iSy)*(iSy))
+        temp[4, 2, 0, 1] = J[site]
+        temp[4, 2, 1, 0] = -J[site]
 
         #Sz
         temp[4, 3, 0, 0] = -Delta[site] * J[site] * (-1.0)
@@ -555,9 +555,9 @@ class XXZflipped(MPO):
       #Sx
       temp[1, 0, 0, 1] = 1.0
       temp[1, 0, 1, 0] = 1.0
-      #Sy
-      temp[2, 0, 0, 1] = +1j
-      temp[2, 0, 1, 0] = -1j
+      #Sy (real: Sy*Sy=-(iSy)*(iSy))
+      temp[2, 0, 0, 1] = 1.0
+      temp[2, 0, 1, 0] = -1.0
       #Sz
       temp[3, 0, 0, 0] = -1.0
       temp[3, 0, 1, 1] = +1.0
@@ -574,20 +574,20 @@ class XXZflipped(MPO):
         #Sx
         temp[1, 0, 0, 1] = 1.0
         temp[1, 0, 1, 0] = 1.0
-        #Sy
-        temp[2, 0, 0, 1] = +1j
-        temp[2, 0, 1, 0] = -1j
+        #Sy (real: Sy*Sy=-(iSy)*(iSy))
+        temp[2, 0, 0, 1] = 1.0
+        temp[2, 0, 1, 0] = -1.0
 
         #Sz
         temp[3, 0, 0, 0] = -1.0
         temp[3, 0, 1, 1] = +1.0
 
         #Sx
-        temp[4, 1, 0, 1] = J[0]
-        temp[4, 1, 1, 0] = J[0]
-        #Sy
-        temp[4, 2, 0, 1] = +1j * (-J[0])
-        temp[4, 2, 1, 0] = -1j * (-J[0])
+        temp[4, 1, 0, 1] = J[site]
+        temp[4, 1, 1, 0] = J[site]
+        #Sy (real: Sy*Sy=-(iSy)*(iSy))
+        temp[4, 2, 0, 1] = J[site]
+        temp[4, 2, 1, 0] = -J[site]
 
         #Sz
         temp[4, 3, 0, 0] = -Delta[site] * J[site] * (-1.0)
-- 
2.43.0


From 5ff3d7f409dc159895c67b5ccae8943463086647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:41 +0000
Subject: [PATCH 37/54] fix: periodic SpinlessFermions and HubbardChain accept
 one parameter per bond of the ring

---
 lib/mpslib/Hamiltonians.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index 93441e1..7a772de 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -605,7 +605,10 @@ class SpinlessFermions(MPO):
 
   def __init__(self, interaction, hopping, chempot, obc, dtype=complex):
     assert (len(interaction) == len(hopping))
-    assert (len(interaction) == len(chempot) - 1)
+    if obc == True:
+      assert (len(interaction) == len(chempot) - 1)
+    if obc == False:
+      assert (len(interaction) == len(chempot))
 
     self._mpo = []
     self._interaction = interaction
@@ -944,8 +947,12 @@ class HubbardChain(MPO):
 
     assert (len(mu_up) == self._N)
     assert (len(mu_down) == self._N)
-    assert (len(t_up) == self._N - 1)
-    assert (len(t_down) == self._N - 1)
+    if obc == True:
+      assert (len(t_up) == self._N - 1)
+      assert (len(t_down) == self._N - 1)
+    if obc == False:
+      assert (len(t_up) == self._N)
+      assert (len(t_down) == self._N)
 
     self._mpo = []
     c = np.zeros((2, 2), dtype=self.dtype)
-- 
2.43.0


From 5d61dcd7e4a6fbecefed741c42035fd60f670507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:41 +0000
Subject: [PATCH 38/54] fix: periodic SpinlessFermions has the same hopping
 sign as the open chain

---
 lib/mpslib/Hamiltonians.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index 7a772de..b030537 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -657,13 +657,13 @@ class SpinlessFermions(MPO):
       for n in range(self._N):
         tensor = np.zeros((5, 5, 2, 2)).astype(dtype)
         tensor[0, 0, :, :] = np.eye(2)
-        tensor[1, 0, :, :] = c.dot(P)
-        tensor[2, 0, :, :] = herm(c).dot(P)
+        tensor[1, 0, :, :] = c
+        tensor[2, 0, :, :] = herm(c)
         tensor[3, 0, :, :] = herm(c).dot(c)
         tensor[4, 0, :, :] = chempot[n] * herm(c).dot(c)
 
-        tensor[4, 1, :, :] = (-1.0) * hopping[n] * herm(c)
-        tensor[4, 2, :, :] = (+1.0) * hopping[n] * c
+        tensor[4, 1, :, :] = (-1.0) * hopping[n] * herm(c).dot(P)
+        tensor[4, 2, :, :] = (+1.0) * hopping[n] * c.dot(P)
         tensor[4, 3, :, :] = interaction[n] * herm(c).dot(c)
         tensor[4, 4, :, :] = np.eye(2)
         self._mpo.append(np.copy(tensor))
-- 
2.43.0


From a24f8336d9a694b1b8614a03989f32716a236c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 39/54] fix: twoSiteGate works for two-site chains

---
 lib/mpslib/Hamiltonians.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index b030537..c684237 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -72,6 +72,10 @@ class MPO:
       for s in range(1, mpo1.shape[0] - 1):
         h += np.kron(mpo1[s, :, :], mpo2[s, :, :])
       h += np.kron(mpo1[-1, :, :], mpo2[-1, :, :] / 2.0)
+    else:
+      h = np.kron(mpo1[0, :, :], mpo2[0, :, :])
+      for s in range(1, mpo1.shape[0]):
+        h += np.kron(mpo1[s, :, :], mpo2[s, :, :])
     Gate = np.reshape(sp.linalg.expm(tau * h), (d1, d2, d1, d2))
     #Gate=np.reshape(np.eye(4),(d1,d2,d1,d2))
 
-- 
2.43.0


From b651521b506faee4af7ceed94b669f7075dad1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 40/54] fix: twoSiteGate accepts the sites in either order

---
 lib/mpslib/Hamiltonians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index c684237..7dc058f 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -48,7 +48,7 @@ class MPO:
       mpo1 = self._mpo[n][-1, :, :, :]
       mpo2 = self._mpo[m][:, 0, :, :]
       nl = n
-      mr = m
+      nr = m
     if n > m:
       mpo1 = self._mpo[m][-1, :, :, :]
       mpo2 = self._mpo[n][:, 0, :, :]
-- 
2.43.0


From dafa8489c9cda144f3e352f59b46d91ef35bbd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 41/54] fix: saving a state or engine replaces the previous
 file only when the new one is complete

---
 lib/mpslib/engines.py | 3 ++-
 lib/mpslib/mps.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index a4cbf45..e8dee2c 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -41,8 +41,9 @@ class Container:
                   the filename of the file
         """
 
-        with open(filename+'.pickle', 'wb') as f:
+        with open(filename+'.pickle.tmp', 'wb') as f:
             pickle.dump(self,f)
+        os.replace(filename+'.pickle.tmp',filename+'.pickle')
             
     def load(self,filename):
         """
diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 4daeabd..1030fd6 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1295,8 +1295,9 @@ class MPS:
         
         
         """
-        with open(filename+'.pickle', 'wb') as f:
+        with open(filename+'.pickle.tmp', 'wb') as f:
             pickle.dump(self,f)
+        os.replace(filename+'.pickle.tmp',filename+'.pickle')
 
     def load(self,filename):
         """
-- 
2.43.0


From cb360751203802bc2e64be863c1169c35c12d2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 42/54] fix: TEBD and TDVP write a new checkpoint before
 removing the previous one and remove only their own

---
 lib/mpslib/engines.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index e8dee2c..b3aa3a4 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1247,7 +1247,7 @@ class TimeEvolutionEngine(Container):
         """
 
         #even half-step:
-        current='None'
+        current=None
         if numsteps>0:
             self.applyEven(dt/2.0,Dmax,tr_thresh)
         for step in range(numsteps):
@@ -1265,10 +1265,11 @@ class TimeEvolutionEngine(Container):
                 if step<(numsteps-1):                
                     self.applyEven(dt/2.0,Dmax,tr_thresh)
                     if not keep_cp:
-                        if os.path.exists(current+'.pickle'):
-                            os.remove(current+'.pickle')
+                        previous=current
                         current=self._filename+'_tebd_cp'+str(self._it)
                         self.save(current)
+                        if previous!=None and os.path.exists(previous+'.pickle'):
+                            os.remove(previous+'.pickle')
                     else:
                         current=self._filename+'_tebd_cp'+str(self._it)
                         self.save(current)
@@ -1278,6 +1279,8 @@ class TimeEvolutionEngine(Container):
                     self.applyEven(dt/2.0,Dmax,tr_thresh)
                     newname=self._filename+'_tebd_cp'+str(self._it)
                     self.save(newname)                    
+                    if not keep_cp and current!=None and os.path.exists(current+'.pickle'):
+                        os.remove(current+'.pickle')
             #if step is not a cp step:
             else:
                 #do a regular full step, unless step is the last step
@@ -1314,7 +1317,7 @@ class TimeEvolutionEngine(Container):
         if solver not in ['LAN','Radau','SEXPMV','RK45','BDF','LSODA','RK23']:
             raise ValueError("TDVPengine.__doTDVP__(): unknown solver type {0}; use {'LAN','Radau','SEXPMV','RK45','BDF','LSODA','RK23'}".format(solver))
         converged=False
-        current='None'
+        current=None
         self._mps.__position__(0)
         for step in range(numsteps):
             for n in range(self._mps._N):
@@ -1385,10 +1388,11 @@ class TimeEvolutionEngine(Container):
                 print('')
             if (cp!=None) and (self._it>0) and (self._it%cp==0):
                 if not keep_cp:
-                    if os.path.exists(current+'.pickle'):
-                        os.remove(current+'.pickle')
+                    previous=current
                     current=self._filename+'_tdvp_cp'+str(self._it)
                     self.save(current)
+                    if previous!=None and os.path.exists(previous+'.pickle'):
+                        os.remove(previous+'.pickle')
                 else:
                     current=self._filename+'_tdvp_cp'+str(self._it)
                     self.save(current)
-- 
2.43.0


From 0bd4cc03894c18a955ed2bbacb64b9301a2b8eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 43/54] fix: Lanczos eigenvectors keep the imaginary part when
 only the map is complex

---
 lib/Lanczos/LanczosEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Lanczos/LanczosEngine.py b/lib/Lanczos/LanczosEngine.py
index 93447fd..7305a8e 100644
--- a/lib/Lanczos/LanczosEngine.py
+++ b/lib/Lanczos/LanczosEngine.py
@@ -104,7 +104,7 @@ class LanczosEngine:
         eta,u=np.linalg.eigh(self._Heff)
         states=[]
         for n2 in range(min(self._numeig,len(eta))):
-            state=np.zeros(initialstate.shape,dtype=initialstate.dtype)
+            state=np.zeros(initialstate.shape,dtype=np.result_type(initialstate,dtype))
             for n1 in range(len(self._vecs)):
                 state+=self._vecs[n1]*u[n1,n2]
             states.append(state/np.sqrt(self._dot(state.conjugate(),state)))
-- 
2.43.0


From 5fcae76f5e8d1e8da54bfe51a215d1ef2ce96686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 44/54] fix: a Lanczos time step keeps the length of the
 vector, its imaginary part and all Krylov vectors

---
 lib/Lanczos/LanczosEngine.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/Lanczos/LanczosEngine.py b/lib/Lanczos/LanczosEngine.py
index 7305a8e..4b91781 100644
--- a/lib/Lanczos/LanczosEngine.py
+++ b/lib/Lanczos/LanczosEngine.py
@@ -133,12 +133,13 @@ class LanczosTimeEvolution(LanczosEngine):
         dt: time increment
         verbose: verbosity flag
         """
-        self._dtype=type(dt)        
+        self._dtype=np.result_type(dt,state,self._matvec(state))
+        norm=np.sqrt(self._dot(state.conjugate(),state))
         self.__simulate__(state.astype(self._dtype),verbose=True,reortho=True)
         #take the expm of self._Heff
         U=sp.linalg.expm(dt*self._Heff)
         result=np.zeros(state.shape,dtype=self._dtype)
-        for n in range(min(self._ncv,self._Heff.shape[0])):
+        for n in range(self._Heff.shape[0]):
             result+=self._vecs[n]*U[n,0]
-        return result
+        return result*norm
         
-- 
2.43.0


From 2b4b8f365967e720784074be16e3f70ada1f4887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:37 +0000
Subject: [PATCH 45/54] fix: ncon no longer appends to the caller's order list
 for disconnected networks

---
 lib/ncon/ncon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/ncon/ncon.py b/lib/ncon/ncon.py
index ac005b2..d2a05f5 100644
--- a/lib/ncon/ncon.py
+++ b/lib/ncon/ncon.py
@@ -40,6 +40,8 @@ def ncon(AA, v, order=None, forder=None, check_indices=True):
 
     if order == None:
         order = create_order(v)
+    else:
+        order = list(order)
     if forder == None:
         forder = create_forder(v)
 
-- 
2.43.0


From 751689ce4832fa9096283d7f18c3e1cc3ab3ad80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:44 +0000
Subject: [PATCH 46/54] fix: getBoundaryHams returns the energies also for
 states whose centre is in the left half

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index c920b80..1b72a8b 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1830,7 +1830,7 @@ def getBoundaryHams(mps,mpo,regauge=False):
         
         lb=np.copy(f0l)
         rb=np.copy(f0r)
-        return lb,rb,lbound,rbound
+        return lb,rb,lbound,rbound,hl,hr
 
     if mps.pos==len(mps):
         D=np.shape(mps[-1])[1]
-- 
2.43.0


From 35a7d55c5ac819071dceed291b1d3396e412c08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:44 +0000
Subject: [PATCH 47/54] fix: IDMRG growth step places the centre between the
 exchanged halves for odd unit cells

---
 lib/mpslib/engines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index b3aa3a4..ba20241 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -472,7 +472,7 @@ class IDMRGengine(DMRGengine):
         for n in range(self._mps._N):
             self._mps._tensors[n]=mps[n]
             
-        self._mps._position=int(self._mps._N/2)
+        self._mps._position=self._mps._N-int(self._mps._N/2)
         self._mps._mat=lamR.dot(self._mps._connector).dot(lamL)
         self._mps._connector=connector
         self._mps.__position__(0)
-- 
2.43.0


From 72121f778bae78dc82d64bde7b983bc901ee677d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:44 +0000
Subject: [PATCH 48/54] fix: single-site IDMRG passes numvecs on to the sweeps

---
 lib/mpslib/engines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index ba20241..1a47c8b 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -527,7 +527,7 @@ class IDMRGengine(DMRGengine):
         skip=False
         while not converged:
             regauge=False
-            e=super().__simulate__(Nmax=NUC,Econv=Econv,tol=tol,ncv=ncv,cp=cp,verbose=verbose-1,solver=solver,Ndiag=Ndiag,nmaxlan=nmaxlan,landelta=landelta,landeltaEta=landeltaEta)
+            e=super().__simulate__(Nmax=NUC,Econv=Econv,tol=tol,ncv=ncv,cp=cp,verbose=verbose-1,numvecs=numvecs,solver=solver,Ndiag=Ndiag,nmaxlan=nmaxlan,landelta=landelta,landeltaEta=landeltaEta)
             if regaugestep>0 and it%regaugestep==0 and it>0:
                 regauge=True
                 skip=True
-- 
2.43.0


From 2570c139be19a8413b07ef9cfc92eb9a02fb88de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 49/54] fix: single-site IDMRG honours the caller's verbosity

---
 lib/mpslib/engines.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 1a47c8b..7c62d22 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -523,7 +523,6 @@ class IDMRGengine(DMRGengine):
         it=0
         converged=False
         eold=0.0
-        verbose=1
         skip=False
         while not converged:
             regauge=False
-- 
2.43.0


From 1d4aaba04dfef7c367ac8d554bb03bb92f9b6037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:05 +0000
Subject: [PATCH 50/54] fix: Container.update and truncateMPS leave a usable
 list of left blocks

---
 lib/mpslib/engines.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 7c62d22..376750f 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -114,8 +114,7 @@ class Container:
         """
         self._mps.truncate(schmidt_thresh=truncation_threshold,D=D,nmaxit=100000,tol=tol,ncv=ncv,pinv=pinv,r_thresh=1E-14)
         self._mps.position(0)
-        self._L=[]*len(self._mps)
-        self._L.insert(0,self._lb)
+        self._L=[self._lb]+[None]*len(self._mps)
         self._R=mf.getR(self._mps._tensors,self._mpo,self._rb)
         self._R.insert(0,self._rb)
         return self
@@ -166,8 +165,7 @@ class Container:
         returns: self
         """
         self._mps.position(0)
-        self._L=[]*len(self._mps)        
-        self._L.insert(0,self._lb)
+        self._L=[self._lb]+[None]*len(self._mps)
         self._R=mf.getR(self._mps._tensors,self._mpo,self._rb)
         self._R.insert(0,self._rb)
         return self
-- 
2.43.0


From d2df31e13fe022a82f5d13fe8cee1fa6aa7b0baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:12 +0000
Subject: [PATCH 51/54] fix: MPS.zeros returns zero tensors instead of NaN

---
 lib/mpslib/mps.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 1030fd6..05eaef4 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -208,8 +208,6 @@ class MPS:
         tensors=mf.MPSinitializer(np.zeros,N,D,d,obc,dtype,scale=1.0,shift=0.0)
         mps=cls(tensors,schmidt_thresh,r_thresh)
         mps._obc=obc
-        mps.__position__(0)        
-        mps.__position__(mps._N)
         mps._Z=1.0        
         return mps
 
-- 
2.43.0


From 20f3ee5efc702ce893f061edf715201714d8426b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:41 +0000
Subject: [PATCH 52/54] fix: canonizeMPS keeps the state of an infinite unit
 cell

---
 lib/mpslib/mpsfunctions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 1b72a8b..6b2501a 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2312,6 +2312,8 @@ def canonizeMPS(mps,tr_thresh=1E-16,r_thresh=1E-14):
             Lam[n]=S
             if n>0:
                 Gamma[n-1]=np.transpose(np.tensordot(Gamma[n-1],U.dot(np.diag(S)),([1],[0])),(0,2,1))
+        #the unit cell is connected to itself: the rotation left over at its left end is moved to its right end
+        Gamma[-1]=np.transpose(np.tensordot(Gamma[-1],U,([1],[0])),(0,2,1))
         return Gamma,Lam
 
     else:
-- 
2.43.0


From e969a63e55b7dc8dbef3f1e6136f522cf3f2249d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:02 +0000
Subject: [PATCH 53/54] fix: sums of periodic states are sums of the
 represented vectors

---
 lib/mpslib/mps.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 05eaef4..74810f3 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -543,7 +543,11 @@ class MPS:
         adds self with other;
         returns an unnormalized mps
         """
-        tens=mf.addMPS(self.tolist(),self._Z,other.tolist(),other._Z)
+        tens1,tens2=self.tolist(),other.tolist()
+        if not self._obc: #the connector matrices close the ring
+            tens1[-1]=ncon.ncon([tens1[-1],self._connector],[[-1,1,-3],[1,-2]])
+            tens2[-1]=ncon.ncon([tens2[-1],other._connector],[[-1,1,-3],[1,-2]])
+        tens=mf.addMPS(tens1,self._Z,tens2,other._Z,obc=self._obc)
         out=MPS(tensors=tens,schmidt_thresh=1E-16,r_thresh=1E-16) #out is an unnormalized MPS
         out._Z=1.0 #MPS.__init__ sets self._Z to -1e10, so we have to reset it here to 1
         return out
-- 
2.43.0


From 7996b9c7e519248e953c1797ee6fe638d1b0c4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 54/54] fix: matrix elements of states with real and complex
 tensors keep their imaginary part

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 6b2501a..0ea146c 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -494,7 +494,7 @@ def matrixElementLocal(mps1,mps2,operators,lb,rb):
     rb: right boundary of the mps (for obc, rb=np.ones((1,1,1))
     ortho (str): can be {'left','right'} and denotes the orthogonal state of the mps
     """
-    dtype=np.result_type(mps1[0].dtype,mps2[0].dtype,lb.dtype,rb.dtype,*[o.dtype for o in operators])
+    dtype=np.result_type(lb.dtype,rb.dtype,*[t[n].dtype for t in (mps1,mps2,operators) for n in range(len(t))])
     N=len(mps1)
     if len(mps1)!=len(mps2):
         raise ValueError("matrixElementLocal: mps1 and mps2 have different lengths")
-- 
2.43.0

