------------------------------- MODULE Vmmlib -------------------------------
(***************************************************************************)
(* The specification of vmmlib: all machines, dispatched on `kind`.        *)
(*   InitRegs(kind, par)  registers right after default construction       *)
(*   InitAux(kind, par)   further state at the start                       *)
(*   Step(c)              the action of command c                          *)
(***************************************************************************)
EXTENDS SpecMatrix, SpecVector, SpecAffine, SpecGeom, SpecIO, SpecMisc

InitRegs(k, p) ==
    CASE k = "matstore"  -> StoreInit(p)
      [] k = "matarith"  -> ArithInit(p)
      [] k = "matsquare" -> SquareInit(p)
      [] k = "matprod"   -> ProdInit(p)
      [] k = "matreduce" -> ReduceInit(p)
      [] k = "matconv"   -> ConvInit(p)
      [] k = "vecarith"  -> VArithInit(p)
      [] k = "vecgeom"   -> VGeomInit(p)
      [] k = "vecsearch" -> VSearchInit(p)
      [] k = "vecview"   -> VViewInit(p)
      [] k = "vecplane"  -> VPlaneInit(p)
      [] k = "affine"    -> AffineInit(p)
      [] k = "matvec"    -> MatVecInit(p)
      [] k = "quat"      -> QuatInit(p)
      [] k = "aabb"      -> AabbInit(p)
      [] k = "frustum"   -> FrustumInit(p)
      [] k = "culler"    -> CullerInit(p)
      [] k = "ray"       -> RayInit(p)
      [] k = "quant"     -> QuantInit(p)
      [] k = "quantw"    -> QuantWInit(p)
      [] k = "stream"    -> StreamInit(p)
      [] k = "lowpass"   -> LowpassInit(p)
      [] k = "qr"        -> QrInit(p)
      [] k = "util"      -> UtilInit(p)
      [] k = "filler"    -> <<>>
      [] k = "version"   -> <<>>

InitAux(k, p) ==
    CASE k = "stream"  -> StreamAux
      [] k = "lowpass" -> LowpassAux
      [] k = "filler"  -> FillerAux
      [] OTHER         -> <<>>

\* start of a behaviour: default-constructed objects
Begin(k, p) ==
    /\ kind' = k /\ par' = p /\ regs' = InitRegs(k, p) /\ aux' = InitAux(k, p)
    /\ out' = Void

Step(c) ==
    IF c.op = "ld" THEN Load(c.a[1], c.a[2], From(c.a, 3))
    ELSE CASE kind = "matstore"  -> StepStore(c)
           [] kind = "matarith"  -> StepArith(c)
           [] kind = "matsquare" -> StepSquare(c)
           [] kind = "matprod"   -> StepProd(c)
           [] kind = "matreduce" -> StepReduce(c)
           [] kind = "matconv"   -> StepConv(c)
           [] kind = "vecarith"  -> StepVArith(c)
           [] kind = "vecgeom"   -> StepVGeom(c)
           [] kind = "vecsearch" -> StepVSearch(c)
           [] kind = "vecview"   -> StepVView(c)
           [] kind = "vecplane"  -> StepVPlane(c)
           [] kind = "affine"    -> StepAffine(c)
           [] kind = "matvec"    -> StepMatVec(c)
           [] kind = "quat"      -> StepQuat(c)
           [] kind = "aabb"      -> StepAabb(c)
           [] kind = "frustum"   -> StepFrustum(c)
           [] kind = "culler"    -> StepCuller(c)
           [] kind = "ray"       -> StepRay(c)
           [] kind = "quant"     -> StepQuant(c)
           [] kind = "quantw"    -> StepQuantW(c)
           [] kind = "stream"    -> StepStream(c)
           [] kind = "lowpass"   -> StepLowpass(c)
           [] kind = "qr"        -> StepQr(c)
           [] kind = "util"      -> StepUtil(c)
           [] kind = "filler"    -> StepFiller(c)
           [] kind = "version"   -> StepVersion(c)
=============================================================================
