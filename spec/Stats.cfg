SPECIFICATION Spec
CONSTANTS
  Mods = {"filter","filterix","reweight","cool","addcol","delfixed","burn","thin","wthin","contours","settings","ranges","setsamples","delzeros","minweight","none"}
  Queries = {"basic","corr","marge","like","covmat","dens1d","dens1dset","dens2d","bestfit","conf","latex","pairs","summary","limits","converge","pca"}
  Depth = 3
  Emit = TRUE
INVARIANTS Fresh CacheFresh EmitBehaviours
CHECK_DEADLOCK FALSE
