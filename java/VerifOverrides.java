import tlc2.overrides.ITLCOverrides;

public class VerifOverrides implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  public Class[] get() { return new Class[] { Reals64.class }; }
}
