package verif;

import tlc2.overrides.ITLCOverrides;

public class Overrides implements ITLCOverrides {
    @Override
    public Class<?>[] get() {
        return new Class<?>[] { IEEE.class, Text.class };
    }
}
