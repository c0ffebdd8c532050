package kdlspec;

import java.io.IOException;
import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;
import util.Assert;

/** A real number, represented by an IEEE double.  TLC has no value of this kind of its own. */
public final class RealValue extends Value {
    public final double v;

    public RealValue(double v) { this.v = v; }

    @Override public byte getKind() { return REALVALUE; }

    @Override public int compareTo(Object o) {
        if (o instanceof RealValue) return Double.compare(v, ((RealValue) o).v);
        Assert.fail("Attempted to compare the real " + v + " with the non-real " + o);
        return 0;
    }

    @Override public boolean equals(Object o) {
        if (o instanceof RealValue) return Double.compare(v + 0.0, ((RealValue) o).v + 0.0) == 0;
        Assert.fail("Attempted to check equality of the real " + v + " with the non-real " + o);
        return false;
    }

    @Override public boolean member(Value e) { Assert.fail("a real is not a set"); return false; }
    @Override public boolean isFinite() { Assert.fail("a real is not a set"); return false; }
    @Override public int size() { Assert.fail("a real is not a set"); return 0; }
    @Override public Value takeExcept(ValueExcept ex) { if (ex.idx >= ex.path.length) return ex.value; Assert.fail("a real is not a function"); return null; }
    @Override public Value takeExcept(ValueExcept[] exs) { Value r = this; for (ValueExcept e : exs) if (e != null) r = r.takeExcept(e); return r; }
    @Override public boolean isNormalized() { return true; }
    @Override public Value normalize() { return this; }
    @Override public boolean isDefined() { return true; }
    @Override public IValue deepCopy() { return this; }
    @Override public boolean mutates() { return false; }

    @Override public void write(IValueOutputStream vos) throws IOException {
        throw new IOException("reals cannot be spilled to disk");
    }

    @Override public long fingerPrint(long fp) {
        return FP64.Extend(FP64.Extend(fp, 77), Double.doubleToLongBits(v + 0.0));
    }

    @Override public IValue permute(IMVPerm perm) { return this; }

    @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
        return sb.append(v);
    }
}
