// every lattice as a whole class: its default constructor and destructor too
#include "Vector.h"
#include "Matrix.h"
#include <cassert>
#include <cmath>
#include "InputNg.h"
#include "InputCheckBase.h"
#include "Geometry/Geometry.h"
using namespace PsimagLite;
typedef InputNg<InputCheckBase>::Readable InputType;
void defaults()
{
	Ladder<double, InputType> ladder;
	LadderX<double, InputType> ladderX;
	LadderBath<double, InputType> ladderBath;
	Star<double, InputType> star;
	KTwoNiFFour<double, InputType> ktwo;
	LongChain<double, InputType> longChain;
	LongRange<double, InputType> longRange;
}
void writes()
{
	Honeycomb<double, InputType>* h = nullptr;
	LongChain<double, InputType> longChain;
	LongRange<double, InputType> longRange;
	Ladder<double, InputType> ladder;
	int archive = 0;
	h->write(archive, 0u);
	longChain.write(archive, 0u);
	longRange.write(archive, 0u);
	ladder.isPeriodicX();
}
