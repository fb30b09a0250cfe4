package gv;

import tlc2.overrides.ITLCOverrides;

/** Registers the Java implementations of the operators of module Rat. */
public class GvOverrides implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  public Class[] get() {
    return new Class[] {RatImpl.class};
  }
}
